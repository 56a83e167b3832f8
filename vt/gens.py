"""Random inputs.  What an input is worth is decided by the specification, not here."""
import math, random
from fractions import Fraction as F


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def incirc(a, b, c, d):
    ax, ay, bx, by, cx, cy = a[0] - d[0], a[1] - d[1], b[0] - d[0], b[1] - d[1], c[0] - d[0], c[1] - d[1]
    return ((ax * ax + ay * ay) * (bx * cy - by * cx) - (bx * bx + by * by) * (ax * cy - ay * cx)
            + (cx * cx + cy * cy) * (ax * by - ay * bx))


def area2(poly):
    n = len(poly)
    return sum(poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1] for i in range(n))


def onseg(a, b, p):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def meet(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return onseg(a, b, c) or onseg(a, b, d) or onseg(c, d, a) or onseg(c, d, b)


def simple(poly):
    n = len(poly)
    if n < 3 or len(set(poly)) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = poly[i], poly[(i + 1) % n], poly[j], poly[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                q, w, e = (a, b, d) if j == i + 1 else (c, d, b)
                if orient(q, w, e) == 0 and (q[0] - w[0]) * (e[0] - w[0]) + (q[1] - w[1]) * (e[1] - w[1]) > 0:
                    return False
            elif meet(a, b, c, d):
                return False
    return True


def pip(poly, p):
    w, n = 0, len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if onseg(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]) and (b[1] > a[1]) == (orient(a, b, p) > 0):
            w ^= 1
    return 1 if w else -1


def hull(ps):
    ps = sorted(set(ps))

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(ps), half(ps[::-1])
    return a[:-1] + b[:-1]


def rpoly(R, N, k, x0=0, y0=0):
    """A random simple counterclockwise polygon of at most k vertices."""
    for _ in range(300):
        ps = list({(x0 + R.randint(0, N), y0 + R.randint(0, N)) for _ in range(k)})
        if len(ps) < 3:
            continue
        cx, cy = sum(p[0] for p in ps) / len(ps), sum(p[1] for p in ps) / len(ps)
        if R.random() < .6:
            ps.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
        else:
            R.shuffle(ps)
            for _ in range(200):
                ok, n = True, len(ps)
                for i in range(n):
                    for j in range(i + 2, n):
                        if not (i == 0 and j == n - 1) and meet(ps[i], ps[i + 1], ps[j], ps[(j + 1) % n]):
                            ps[i + 1:j + 1] = ps[i + 1:j + 1][::-1]
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    break
        if not simple(ps) or area2(ps) == 0:
            continue
        if area2(ps) < 0:
            ps = ps[::-1]
        i = R.randrange(len(ps))
        return ps[i:] + ps[:i]
    return [(x0, y0), (x0 + N, y0), (x0 + N, y0 + N)]


def strong(V, cons):
    """A cheap filter; StronglyDelaunay of Mesh.tla is what counts."""
    for a, b in cons:
        L, R = [], []
        for p in V:
            if p != a and p != b:
                o = orient(a, b, p)
                if o > 0:
                    L.append(p)
                elif o < 0:
                    R.append(p)
                elif onseg(a, b, p):
                    return False
        if L and R:
            l = L[0]
            for p in L[1:]:
                if incirc(a, b, l, p) > 0:
                    l = p
            if any(incirc(a, b, l, q) >= 0 for q in R):
                return False
    return True


def sharp(cons):
    nb = {}
    for a, b in cons:
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    for v, s in nb.items():
        s = list(s)
        for i in range(len(s)):
            for j in range(i):
                u, w = (s[i][0] - v[0], s[i][1] - v[1]), (s[j][0] - v[0], s[j][1] - v[1])
                d = u[0] * w[0] + u[1] * w[1]
                if d > 0 and 4 * d * d > (u[0] ** 2 + u[1] ** 2) * (w[0] ** 2 + w[1] ** 2):
                    return True
    return False


def loop_edges(l):
    return [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]


def delaunay(ps):
    """Counterclockwise triangles of a Delaunay triangulation (exact, by a sweep and flips); none if collinear."""
    ps = sorted(ps)
    adj = {}                                  # directed edge -> opposite vertex of its triangle

    def add(a, b, c):
        adj[(a, b)], adj[(b, c)], adj[(c, a)] = c, a, b
    k = 2
    while k < len(ps) and orient(ps[0], ps[1], ps[k]) == 0:
        k += 1
    if k >= len(ps):
        return []
    # fan over the collinear start
    for i in range(k - 1):
        a, b = ps[i], ps[i + 1]
        add(a, b, ps[k]) if orient(a, b, ps[k]) > 0 else add(b, a, ps[k])
    for p in ps[k + 1:]:
        for (a, b) in [(b, a) for (a, b) in adj if (b, a) not in adj]:
            if orient(a, b, p) > 0:           # hull edge visible from p
                add(a, b, p)
    todo = list(adj)
    while todo:
        a, b = todo.pop()
        if (a, b) not in adj or (b, a) not in adj:
            continue
        c, d = adj[(a, b)], adj[(b, a)]
        if incirc(a, b, c, d) > 0:
            del adj[(a, b)], adj[(b, a)]
            add(c, d, b)
            add(d, c, a)
            todo += [(a, d), (d, b), (b, c), (c, a)]
    return sorted({min((a, b, c), (b, c, a), (c, a, b)) for (a, b), c in adj.items()})


def region_loops(tris):
    """Boundary loops of a set of ccw triangles, or None if a vertex is on two of them."""
    E = {(t[i], t[(i + 1) % 3]) for t in tris for i in range(3)}
    nxt = {}
    for a, b in E:
        if (b, a) not in E:
            if a in nxt:
                return None
            nxt[a] = b
    loops = []
    while nxt:
        a = next(iter(nxt))
        l = [a]
        b = nxt.pop(a)
        while b != a:
            l.append(b)
            if b not in nxt:
                return None
            b = nxt.pop(b)
        loops.append(l)
    return loops


def carved(R, N, n, holes=1, segs=2, keep=.8):
    """A domain made of Delaunay edges of random points: nonconvex, with holes and segments."""
    for _ in range(200):
        ps = list({(R.randint(0, N), R.randint(0, N)) for _ in range(n)})
        if len(ps) < 4:
            continue
        T = delaunay(ps)
        if not T:
            continue
        adj = {}
        for t in T:
            for i in range(3):
                adj[(t[i], t[(i + 1) % 3])] = t
        # grow a region
        t0 = R.choice(T)
        reg = {t0}
        goal = max(2, int(len(T) * R.uniform(keep - .3, keep + .1)))
        for _ in range(4 * len(T)):
            if len(reg) >= goal:
                break
            t = R.choice(list(reg))
            i = R.randrange(3)
            u = adj.get((t[(i + 1) % 3], t[i]))
            if u:
                reg.add(u)
        loops = region_loops(reg)
        if not loops:
            continue
        outer = max(loops, key=area2)
        inner = [l[::-1] for l in loops if l is not outer]
        if any(area2(l) > 0 for l in loops if l is not outer):
            continue
        # the pockets are filled again, or kept as holes
        use = set(outer)
        hs = []
        for h in inner:
            if len(hs) < holes and not (set(h) & use) and R.random() < .8:
                hs.append(h)
                use |= set(h)
        inside = [t for t in T if pip_region(outer, t)]
        insideset = set(inside)
        for t in R.sample(inside, min(len(inside), 12)):
            if len(hs) >= holes:
                break
            cl = {t}
            for _ in range(R.randint(0, 3)):
                s = R.choice(list(cl))
                i = R.randrange(3)
                u = adj.get((s[(i + 1) % 3], s[i]))
                if u in insideset:
                    cl.add(u)
            l = region_loops(cl)
            if l and len(l) == 1 and not (set(l[0]) & use) and all(pip(h, v) < 0 for h in hs for v in l[0]) and all(pip(l[0], h[0]) < 0 for h in hs):
                hs.append(l[0])
                use |= set(l[0])
        free = [p for p in ps if pip(outer, p) > 0 and all(pip(h, p) < 0 for h in hs)]
        ss = []
        E = [e for e in adj if e[0] in free and e[1] in free and pip_mid(outer, e) and all(not pip_mid(h, e) for h in hs)]
        R.shuffle(E)
        for e in E:
            if len(ss) >= segs:
                break
            if (e[1], e[0]) not in ss:
                ss.append(e)
        sv = {v for e in ss for v in e}
        vs = [p for p in free if p not in sv and R.random() < .7]
        i = R.randrange(len(outer))
        D = dict(outer=outer[i:] + outer[:i], holes=hs, segs=ss, verts=vs)
        V, C = pslg(D)
        if strong(V, C):
            return D
    return None


def pip_region(outer, t):
    c = (F(t[0][0] + t[1][0] + t[2][0], 3), F(t[0][1] + t[1][1] + t[2][1], 3))
    return pip(outer, c) > 0


def pip_mid(l, e):
    return pip(l, (F(e[0][0] + e[1][0], 2), F(e[0][1] + e[1][1], 2))) > 0


def pslg(D):
    V = set(D['outer']) | {v for h in D['holes'] for v in h} | {v for s in D['segs'] for v in s} | set(D['verts'])
    C = loop_edges(D['outer']) + [e for h in D['holes'] for e in loop_edges(h)] + list(D['segs'])
    return V, C


def general(R, sizes=(4, 6, 8, 12, 20, 30, 60), corners=(3, 4, 6, 8, 12, 16), frees=(0, 3, 10, 30)):
    """Any boundary with any holes, segments (that may share ends) and free vertices."""
    N = R.choice(sizes)
    outer = [(0, 0), (N, 0), (N, N), (0, N)] if R.random() < .3 else rpoly(R, N, R.choice(corners))
    D = dict(outer=outer, holes=[], segs=[], verts=[])
    nh = R.choice([0, 0, 1, 2, 3])
    for _ in range(40):
        if len(D['holes']) >= nh:
            break
        h = rpoly(R, R.choice([2, 3, 4, 5, max(2, N // 3)]), R.choice([3, 4, 5, 7]), R.randint(0, N - 1), R.randint(0, N - 1))
        if (all(pip(outer, v) > 0 for v in h) and not any(meet(*e, *f) for g in [outer] + D['holes'] for e in loop_edges(g) for f in loop_edges(h))
                and all(pip(g, h[0]) < 0 and pip(h, g[0]) < 0 for g in D['holes']) and all(pip(h, v) < 0 for v in outer)):
            D['holes'].append(h)

    def inside(p):
        return pip(outer, p) > 0 and all(pip(h, p) < 0 for h in D['holes'])
    ns, used = R.choice([0, 0, 1, 2, 4, 8]), []
    for _ in range(60):
        if len(D['segs']) >= ns:
            break
        a = R.choice(used) if used and R.random() < .4 else (R.randint(0, N), R.randint(0, N))
        b = (R.randint(0, N), R.randint(0, N))
        if a == b or not inside(a) or not inside(b):
            continue
        if any(meet(a, b, *e) for l in [outer] + D['holes'] for e in loop_edges(l)):
            continue
        if any(meet(a, b, c, d) and not (len({a, b} & {c, d}) == 1 and onseg(a, b, c) + onseg(a, b, d) + onseg(c, d, a) + onseg(c, d, b) == 2)
               for c, d in D['segs']):
            continue
        D['segs'].append((a, b))
        used += [a, b]
    vs = {(R.randint(0, N), R.randint(0, N)) for _ in range(R.choice(frees))}
    D['verts'] = [v for v in vs if inside(v) and not any(onseg(*s, v) for s in D['segs'])]
    return D


def round_loop(R, n, r, x, y):
    """A loop of n lattice vertices near a circle or a star, or a comb."""
    k = R.random()
    if k < .25:
        m = max(2, n // 4)
        w = max(1, r // m)
        top = []
        for i in range(m):
            top += [(x - r + 2 * w * i, y + r), (x - r + 2 * w * i + w, y + r), (x - r + 2 * w * i + w, y), (x - r + 2 * w * (i + 1), y)]
        top[-1] = (top[-1][0], y)
        l = [(x - r, y - r), (top[-1][0], y - r)] + top[::-1]
        return l
    inner = 1 if k < .6 else R.choice([.4, .5, .7])
    l = []
    for i in range(n):
        q = r * (inner if i % 2 else 1)
        p = (x + round(q * math.cos(2 * math.pi * i / n)), y + round(q * math.sin(2 * math.pi * i / n)))
        if not l or p != l[-1]:
            l.append(p)
    return l


def large(R):
    """Many vertices: long loops, many holes, many segments, many free vertices."""
    for _ in range(100):
        r = R.choice([12, 20, 40, 64])
        outer = round_loop(R, R.choice([12, 20, 32, 48]), r, 0, 0) if R.random() < .7 else [(-r, -r), (r, -r), (r, r), (-r, r)]
        if not simple(outer) or area2(outer) <= 0:
            continue
        D = dict(outer=outer, holes=[], segs=[], verts=[])
        nh, hr = R.choice([(0, 1), (1, r // 2), (3, r // 4), (9, r // 6), (16, r // 8)])
        for _ in range(4 * nh):
            if len(D['holes']) >= nh or hr < 1 or sum(map(len, D['holes'])) > 45:
                break
            x, y = R.randint(-r, r), R.randint(-r, r)
            if nh == 1:
                x, y = R.randint(-2, 2), R.randint(-2, 2)
            h = round_loop(R, R.choice([4, 8, 14, 24]), max(1, hr), x, y) if hr > 2 else [(x, y), (x + hr, y), (x + hr, y + hr)]
            if not simple(h) or area2(h) <= 0:
                continue
            if (all(pip(outer, v) > 0 for v in h) and not any(meet(*e, *f) for g in [outer] + D['holes'] for e in loop_edges(g) for f in loop_edges(h))
                    and all(pip(g, h[0]) < 0 and pip(h, g[0]) < 0 for g in D['holes']) and all(pip(h, v) < 0 for v in outer)):
                D['holes'].append(h)

        def inside(p):
            return pip(outer, p) > 0 and all(pip(h, p) < 0 for h in D['holes'])
        C = [e for l in [outer] + D['holes'] for e in loop_edges(l)]
        ns, last = R.choice([0, 3, 10, 25]), None
        for _ in range(4 * ns):
            if len(D['segs']) >= ns:
                break
            a = last if last and R.random() < .5 else (R.randint(-r, r), R.randint(-r, r))
            m = R.choice([2, 5, r])
            b = (a[0] + R.randint(-m, m), a[1] + R.randint(-m, m))
            if a == b or not inside(a) or not inside(b) or any(meet(a, b, *e) for e in C):
                continue
            if any(meet(a, b, c, d) and not (len({a, b} & {c, d}) == 1 and onseg(a, b, c) + onseg(a, b, d) + onseg(c, d, a) + onseg(c, d, b) == 2)
                   for c, d in D['segs']):
                continue
            D['segs'].append((a, b))
            last = b
        vs = {(R.randint(-r, r), R.randint(-r, r)) for _ in range(R.choice([0, 20, 60, 120]))}
        D['verts'] = [v for v in vs if inside(v) and not any(onseg(*s, v) for s in D['segs'])]
        return D


def history(D, R=None):
    """A history of insertions that builds D."""
    ops = [['hole', h] for h in D['holes']]
    if R:
        R.shuffle(ops)
    mid = []
    if D['segs']:
        S = list(D['segs'])
        if R and R.random() < .5:
            i = R.randint(0, len(S))
            mid += [['segs', S[:i]]] * bool(S[:i]) + [['segs', S[i:]]] * bool(S[i:])
        else:
            mid.append(['segs', S])
    if D['verts']:
        mid.append(['verts', list(D['verts'])])
    if R:
        R.shuffle(mid)
    return ops + mid
