"""Families of inputs of the command line program (spec/ProgTrace.tla)."""
import json, math, os, random, re, shutil, subprocess, time
import concurrent.futures as cf
from fractions import Fraction as F
import core, gens
from fam_geom import Place, point

MODULE = 'ProgTrace'
CLI = True


# ---------------------------------------------------------------- inputs

def action(intent, geometry, pts=(), scalars=None, assemble=None):
    a = dict(intent=intent, geometry=geometry)
    if pts:
        a['points'] = [dict(x=x, y=y) for x, y in pts]
    if scalars is not None:
        a['scalars'] = scalars
    if assemble is not None:
        a['assemble'] = assemble
    return a


def rect(R, N, lo=1):
    x, y = R.randint(0, N - lo), R.randint(0, N - lo)
    return (x, y, x + R.randint(lo, max(lo, N - x)), y + R.randint(lo, max(lo, N - y)))


def rpts(r):
    return [(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3])]


def lshape(R, N):
    W, H = R.randint(2, N), R.randint(2, N)
    a, b = R.randint(1, W - 1), R.randint(1, H - 1)
    x, y = R.randint(0, N - W), R.randint(0, N - H)
    l = [(0, 0), (W, 0), (W, b), (a, b), (a, H), (0, H)]
    if R.random() < .5:
        l = [(W - p, q) for p, q in l][::-1]
    if R.random() < .5:
        l = [(p, H - q) for p, q in l][::-1]
    return [(x + p, y + q) for p, q in l]


def shape(R, N, kind):
    """A loop, or a circle."""
    r = R.random()
    if kind == 'box':
        if r < .7:
            l = rpts(rect(R, N))
        elif r < .9:
            l = lshape(R, N)
        else:
            l = gens.hull([point(R, N) for _ in range(6)])
    elif kind == 'round':
        if r < .6:
            return ('circle', point(R, N), R.choice([1, 1.5, 2, 2.5, 3, N / 4, N / 2]), R.choice([5, 6, 6, 7, 7, 8, 8, 9, 12, 16]))
        l = rpts(rect(R, N))
    else:
        l = gens.rpoly(R, N, R.choice([3, 4, 5, 6]))
    if len(l) < 3:
        return shape(R, N, kind)
    i = R.randrange(len(l))
    return l[i:] + l[:i]


def place(pl, s):
    """The shape as the geometry, points and scalars of an action."""
    if s[0] == 'circle':
        _, c, r, n = s
        return 'circle', [pl.p(c)], [r * pl.k] + ([] if n is None else [n])
    return 'polyline', pl.loop(s), None


def outline(s):
    if s[0] == 'circle':
        return circle(s[1], s[2], s[3] or 100)[0]
    return s


def inside(l, p):
    """1 inside of the loop, 0 on it, -1 outside (floats, for sampling only)"""
    w = False
    for (ax, ay), (bx, by) in zip(l, l[1:] + l[:1]):
        o = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if o == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return 0
        if (ay > p[1]) != (by > p[1]) and (o > 0) == (by > ay):
            w = not w
    return 1 if w else -1


def covered(inc, rem, p):
    return any(inside(l, p) > 0 for l in inc) and all(inside(l, p) < 0 for l in rem)


def along(a, b, n=8):
    return [(a[0] + (b[0] - a[0]) * i / n, a[1] + (b[1] - a[1]) * i / n) for i in range(n + 1)]


def inner(R, boxes, holes, N):
    """A point that is likely to be in the region, on half steps"""
    for _ in range(20):
        if boxes:
            b = R.choice(boxes)
            p = (R.randint(2 * b[0] + 1, 2 * b[2] - 1) / 2, R.randint(2 * b[1] + 1, 2 * b[3] - 1) / 2) if b[2] > b[0] and b[3] > b[1] else point(R, N)
        else:
            p = point(R, N)
        if not any(h[0] <= p[0] <= h[2] and h[1] <= p[1] <= h[3] for h in holes):
            return p
    return p


def bbox(s):
    if s[0] == 'circle':
        _, c, r, n = s
        r = r * .7
        return (math.ceil(c[0] - r), math.ceil(c[1] - r), math.floor(c[0] + r), math.floor(c[1] + r))
    return (min(p[0] for p in s), min(p[1] for p in s), max(p[0] for p in s), max(p[1] for p in s))


def params(R, k, N):
    q = R.choice([[3, 2], [3, 2], [2, 1], [8, 5], [5, 1], [3, 1]])
    d = dict(quality=q[0] / q[1])
    a = None
    if R.random() < .4:
        a = R.choice([[N * N, 4], [N * N, 16], [1, 1], [100, 1]])
        d['max_area'] = a[0] * k * k / a[1]
    return d


def finish(R, acts, par, order=True):
    if order:
        R.shuffle(acts)
    doc = dict(name=R.choice(['part', 'a b', 'unicode \u00e9']), actions=acts, params=par)
    if R.random() < .3:
        doc['id'] = '%08x-1234-4abc-8def-%012x' % (R.randrange(1 << 32), R.randrange(1 << 48))
    if R.random() < .3:
        doc['date'] = '2020-09-03T00:09:27.591Z'
    return dict(kind='prog', seed=R.randrange(1 << 30), doc=doc, file=R.random() < .5)


def domain(R, n):
    """Included and removed boxes, circles and polygons with constraints: mostly accepted."""
    for _ in range(n):
        pl = Place(R)
        kind = R.choice(['box', 'box', 'box', 'round', 'any'])
        N = R.choice([4, 6, 8, 12])
        inc = [shape(R, N, kind)]
        for _ in range(R.choice([0, 0, 1, 1, 2, 3])):
            s = shape(R, N, kind)
            for _ in range(8 if R.random() < .9 else 0):       # one that meets the others
                if any(covered([outline(t)], [], p) or inside(outline(t), p) > 0 for t in inc for a, b in gens.loop_edges(outline(s)) for p in along(a, b, 4)):
                    break
                s = shape(R, N, kind)
            inc.append(s)
        rem = []
        for _ in range(R.choice([0, 0, 1, 1, 2, 3])):
            s = shape(R, N, kind)
            if R.random() < .6:                # a small one inside
                x, y = inner(R, [bbox(s) for s in inc], [], N)
                w, h = R.choice([.5, 1, 1, 2]), R.choice([.5, 1, 1, 2])
                s = rpts((x, y, x + w, y + h)) if kind != 'round' or R.random() < .5 else ('circle', (x, y), R.choice([.25, .5, 1]), R.choice([5, 6, 8, 12]))
            rem.append(s)
        boxes, holes = [bbox(s) for s in inc], [bbox(s) for s in rem]
        oi, orm = [outline(s) for s in inc], [outline(s) for s in rem]
        careful = R.random() < .85
        acts = []
        for what, l in (('include', inc), ('remove', rem)):
            for s in l:
                g, pts, sc = place(pl, s)
                acts.append(action(what, g, pts, sc))
        for _ in range(R.choice([0, 0, 1, 1, 2])):
            k = R.choice([1, 1, 2, 3])
            ss = []
            for _ in range(k):
                a = inner(R, boxes, holes, N)
                d = R.choice([(1, 0), (0, 1), (1, 1), (-1, 1), (2, 1), (1, -2), (3, 0), (0, 3)])
                b = (a[0] + d[0], a[1] + d[1])
                if ss and R.random() < .4:     # crossing or meeting the one before
                    a0, b0 = ss[-1]
                    m = ((a0[0] + b0[0]) / 2, (a0[1] + b0[1]) / 2)
                    d0 = (b0[0] - a0[0], b0[1] - a0[1])
                    a, b = (m[0] + d0[1] / 2, m[1] - d0[0] / 2), (m[0] - d0[1] / 2, m[1] + d0[0] / 2)
                    if R.random() < .3:
                        a = m
                if careful and not all(covered(oi, orm, p) for p in along(a, b)):
                    continue
                ss.append((a, b))
            if not ss:
                continue
            if R.random() < .5:
                acts.append(action('constraint', 'segments', pl.ps([v for s in ss for v in s])))
            else:
                vs = sorted({v for s in ss for v in s})
                R.shuffle(vs)
                asm = [[vs.index(a), vs.index(b)] + ([0] if R.random() < .1 else []) for a, b in ss]
                acts.append(action('constraint', 'segments', pl.ps(vs), assemble=asm))
        if R.random() < .4:
            vs = [inner(R, boxes, holes, N) for _ in range(R.randint(1, 4))]
            vs = [v for v in vs if not careful or covered(oi, orm, v)]
            if vs:
                acts.append(action('constraint', 'vertices', pl.ps(vs)))
        yield finish(R, acts, params(R, pl.k, N))


def circles(R, n):
    """Single circles, also with many vertices."""
    for _ in range(n):
        pl = Place(R)
        N = R.choice([4, 8])
        s = ('circle', (N / 2, N / 2), R.choice([N / 4, N / 2]), R.choice([8, 12, 20, 24, 32, 40]) if R.random() < .95 else None)
        g, pts, sc = place(pl, s)
        acts = [action('include', g, pts, sc)]
        if s[3] and R.random() < .5:
            c = (N / 2 + R.choice([0, .25, -.25]), N / 2 + R.choice([0, .25, -.25]))
            r = ('circle', c, R.choice([N / 8, N / 16]), R.choice([6, 8, 12, 16])) if R.random() < .6 else rpts((c[0] - .25, c[1] - .25, c[0] + .5, c[1] + .25))
            g, pts, sc = place(pl, r)
            acts.append(action('remove', g, pts, sc))
        elif s[3] and R.random() < .5:
            acts.append(action('constraint', 'vertices', pl.ps([(N / 2, N / 2), (N / 2 + .5, N / 2)][:R.randint(1, 2)])))
        par = params(R, pl.k, N)
        par.pop('max_area', None)
        yield finish(R, acts, par)


def malformed(R, n):
    """One thing is wrong with the input, whatever else there is."""
    for _ in range(n):
        pl = Place(R)
        N = R.choice([4, 8])
        sq = action('include', 'polyline', pl.loop(rpts((0, 0, N, N))))
        acts = [sq]
        mid = [(N / 4, N / 4), (N / 2, N / 4), (N / 2, N / 2)]
        if R.random() < .5:
            acts.append(action('remove', 'polyline', pl.loop(rpts((1, 1, 2, 2)))))
        if R.random() < .5:
            acts.append(action('constraint', 'vertices', pl.ps([(N - 1, N - 1.5)])))
        par = params(R, pl.k, N)
        out = (N + R.choice([0, 1]), N / 2)
        w = R.choice(['geometry', 'intent', 'odd', 'short', 'range', 'few', 'cross', 'noinc', 'outvert', 'outseg', 'holevert', 'circle', 'doc', 'nothing', 'apart'])
        if w == 'geometry':
            acts.append(action('include', R.choice(['square', 'spline', '']), pl.ps(mid)))
        elif w == 'intent':
            acts.append(R.choice([action(R.choice(['constraint', 'add', '']), 'polyline', pl.loop(mid)),
                                  action('include', 'segments', pl.ps(mid[:2])), action('remove', 'vertices', pl.ps(mid[:1])),
                                  action('constraint', 'circle', pl.ps(mid[:1]), [.5, 8])]))
        elif w == 'odd':
            acts.append(action('constraint', 'segments', pl.ps(mid)))
        elif w == 'short':
            acts.append(action('constraint', 'segments', pl.ps(mid), assemble=[[0, 1], [R.randint(0, 2)]] if R.random() < .5 else [[0, 1], []]))
        elif w == 'range':
            acts.append(action('constraint', 'segments', pl.ps(mid), assemble=[[0, 1], R.choice([[1, 3], [7, 0]])]))
        elif w == 'few':
            acts.append(action(R.choice(['include', 'remove']), 'polyline', pl.ps(mid[:R.randint(0, 2)])))
        elif w == 'cross':
            q = [(0, 0), (N, N), (N, 0), (0, N)]
            if R.random() < .5:
                q = [(0, 0), (N, 0), (N, N), (N / 2, 0), (0, N)]
            acts.append(action(R.choice(['include', 'remove']), 'polyline', pl.loop(q)))
        elif w == 'noinc':
            acts.remove(sq)
        elif w == 'outvert':
            acts.append(action('constraint', 'vertices', pl.ps([mid[0], out])))
        elif w == 'outseg':
            acts.append(action('constraint', 'segments', pl.ps([mid[2], out])))
        elif w == 'holevert':
            acts.append(action('remove', 'polyline', pl.loop(rpts((N / 2, N / 2, N / 2 + 1, N / 2 + 1)))))
            acts.append(action('constraint', 'vertices', pl.ps([(N / 2 + R.choice([0, .5]), N / 2 + .5)])))
        elif w == 'circle':
            acts.append(action('include', 'circle', pl.ps(mid[:R.choice([0, 2])]), [1]) if R.random() < .5 else action('include', 'circle', pl.ps(mid[:1])))
        elif w == 'nothing':
            acts.append(action('remove', 'polyline', pl.loop(rpts((-R.randint(0, 1), 0, N, N + R.randint(0, 1))))))
        elif w == 'apart':
            acts.append(action('include', 'polyline', pl.loop(rpts((N + 1, 0, N + 3, 2)))))
        c = finish(R, acts, par)
        if w == 'doc':
            k = R.choice(['name', 'actions', 'params', 'quality'])
            (c['doc']['params'] if k == 'quality' else c['doc']).pop(k)
        yield c


FAMILIES = {'p.domain': domain, 'p.circles': circles, 'p.malformed': malformed}


# ---------------------------------------------------------------- running the program

def preload():
    so = os.path.join(core.BUILD, 'preload.so')
    src = os.path.join(core.ROOT, 'driver', 'preload.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + '.%d' % os.getpid()
        r = core.sh(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src])
        if r.returncode != 0:
            raise core.ToolError('gcc failed:\n' + r.stderr)
        os.rename(tmp, so)
    return so


def drive(tools, cases):
    so = preload()
    top = os.path.join(core.BUILD, 'prog', '%d.%d' % (os.getpid(), time.time_ns()))
    os.makedirs(top)
    hangs = []

    def one(c):
        if len(hangs) >= 16:
            return None
        d = os.path.join(top, str(c['id']))
        os.mkdir(d)
        i, o = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(i, 'w') as f:
            json.dump(c['doc'], f)
        short, old = c['seed'] % 3 == 0, 'an older file\n' * 40000 if c['seed'] % 5 == 0 else ''
        cmd = [tools['cli'], '-i' if short else '--input', i] + (['-o' if short else '--output', o] if c['file'] else [])
        if c['file'] and old:
            with open(o, 'w') as f:
                f.write(old)
        env = dict(os.environ, LD_PRELOAD=so, CASE_SEED=str(c['seed']), RUST_BACKTRACE='0')
        r = dict(id=c['id'], res='timeout', out='', extra='')
        for limit in (10, 40):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit, env=env, cwd=d, preexec_fn=core.limits)
            except subprocess.TimeoutExpired:
                continue
            written = open(o).read() if os.path.exists(o) else ''
            written = '' if written == old else written
            r['out'], r['extra'] = (written, p.stdout) if c['file'] else (p.stdout, written)
            r['res'] = 'ok' if p.returncode == 0 else 'rejected' if p.returncode in (1, 101) else 'crash'
            break
        else:
            hangs.append(1)
        shutil.rmtree(d)
        return r

    try:
        with cf.ThreadPoolExecutor(core.NPROC) as ex:
            return {r['id']: r for r in ex.map(one, cases) if r}
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ---------------------------------------------------------------- encoding

def ratio(x):
    f = F(x).limit_denominator(1024)
    return [f.numerator, f.denominator]


def crossings(E):
    """Points where edges cross, rounded."""
    out = []
    for i in range(len(E)):
        for j in range(i):
            (a, b), (c, d) = E[i], E[j]
            if max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
                continue
            A, B, C, D = ([F(v) for v in p] for p in (a, b, c, d))
            if gens.orient(A, B, C) * gens.orient(A, B, D) < 0 and gens.orient(C, D, A) * gens.orient(C, D, B) < 0:
                t = gens.orient(C, D, A) / (gens.orient(C, D, A) - gens.orient(C, D, B))
                out.append((float(A[0] + t * (B[0] - A[0])), float(A[1] + t * (B[1] - A[1]))))
    return out


def circle(c, r, n):
    """The vertices by the usual formula, and the distance of consecutive ones."""
    d = math.pi * 2.0 / n
    return [(c[0] + r * math.cos(d * i), c[1] + r * math.sin(d * i)) for i in range(n)], 2 * r * math.sin(math.pi / n)


class Names:
    """Identifiers of points; points that only differ by rounding are one."""
    def __init__(s):
        s.pts, s.cells = [], {}

    def near(s, p):
        tol = 1e-10 * (1 + max(abs(p[0]), abs(p[1])))
        x, y = math.floor(p[0] * 1024), math.floor(p[1] * 1024)
        for i in (x - 1, x, x + 1):
            for j in (y - 1, y, y + 1):
                for k in s.cells.get((i, j), ()):
                    q = s.pts[k - 1]
                    if abs(q[0] - p[0]) <= tol and abs(q[1] - p[1]) <= tol:
                        return k
        return None

    def id(s, p):
        p = (float(p[0]), float(p[1]))
        k = s.near(p)
        if k is None:
            s.pts.append(p)
            k = len(s.pts)
            s.cells.setdefault((math.floor(p[0] * 1024), math.floor(p[1] * 1024)), []).append(k)
        return k


def encode(c, r):
    doc, N = c['doc'], Names()
    ev = [dict(op='doc', rings=c.get('rings', False), has=[k for k in ('name', 'actions', 'params') if k in doc] + (['quality'] if 'quality' in doc.get('params', {}) else []))]
    loops, segs = [], []
    for a in doc.get('actions', []):
        pts = [(p['x'], p['y']) for p in a.get('points', [])]
        e = dict(op='action', intent=a['intent'], geometry=a['geometry'], assemble=a.get('assemble', []), center=0, radius='0', chord='0')
        if a['geometry'] == 'circle':
            sc = a.get('scalars', [])
            l = []
            if len(pts) == 1 and sc:
                e['center'], e['radius'] = N.id(pts[0]), repr(float(sc[0]))
                l, chord = circle(pts[0], sc[0], int(sc[1]) if len(sc) > 1 else 100)
                e['chord'] = repr(chord)
            pts = l
        e['ids'] = [N.id(p) for p in pts]
        q = [N.pts[k - 1] for k in e['ids']]
        if a['geometry'] in ('polyline', 'circle') and len(q) > 2:
            loops += gens.loop_edges(q)
        elif a['geometry'] == 'segments':
            asm = e['assemble'] or [[2 * i, 2 * i + 1] for i in range(len(q) // 2)]
            segs += [(q[x[0]], q[x[1]]) for x in asm if len(x) > 1 and max(x[:2]) < len(q)]
        ev.append(e)
    par = doc.get('params', {})
    e = dict(op='run', res=r['res'], cross=sorted({N.id(x) for x in crossings(loops) + crossings(segs)}), silent=r['out'] == '' and r['extra'] == '',
             quality=ratio(par.get('quality', 1)), area=ratio(par['max_area']) if 'max_area' in par else [],
             tris=[], ids=[], indexed=False, fields=False)
    if r['res'] == 'ok':
        try:
            o = json.loads(r['out'])
            e['ids'] = [N.id((p['x'], p['y'])) for p in o['coordinates']]
            T = [[t['v1'], t['v2'], t['v3']] for t in o['triangles']]
            e['indexed'] = all(isinstance(i, int) and 0 <= i < len(e['ids']) for t in T for i in t)
            e['tris'] = [[e['ids'][i] for i in t] for t in T] if e['indexed'] else []
            uuid = r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$'
            e['fields'] = (o['name'] == doc['name'] and o['tetrahedrons'] == [] and all(p['z'] == 0 for p in o['coordinates'])
                           and (o['id'] == doc['id'] if 'id' in doc else re.match(uuid, o['id']) is not None)
                           and (o['date'] == doc['date'] if 'date' in doc else re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', o['date']) is not None)
                           and r['extra'] == '')
        except (ValueError, KeyError, TypeError):
            e['fields'] = False
    ev.append(e)
    return dict(id=c['id'], pts=[[repr(x), repr(y)] for x, y in N.pts], events=ev)
