"""Model checking runs of the specification, and the behaviours TLC generates from it."""
import json, os, re, time
import core

# name -> (module, constants, properties in the .cfg that aren't checked)
LIVE = 'PROPERTY Terminates\n'
MODELS = {
    'cross-2': ('ExactCross', dict(N=2, Fixed='FALSE'), []),
    'cross-3': ('ExactCross', dict(N=3, Fixed='FALSE'), []),
    'cross-4': ('ExactCross', dict(N=4, Fixed='TRUE'), []),
    'build-live-2': ('BuildMC', dict(N=2, Size=5), []),
    'build-live-3': ('BuildMC', dict(N=3, Size=4), []),
    'build-loops-2': ('BuildMC', dict(N=2, Size=7), [LIVE]),
    'build-loops-3': ('BuildMC', dict(N=3, Size=5), [LIVE]),
    'build-holes-3': ('BuildMC', dict(N=3, Mode='"holes"', Size=3), []),
    'build-holes-4': ('BuildMC', dict(N=4, Mode='"holes"', Size=3), [LIVE]),
    'refine-2': ('RefineMC', dict(N=2, Size=6, Area='Half'), []),
    'refine-3': ('RefineMC', dict(N=3, Size=4), []),
    'domain-1': ('DomainMC', dict(Depth=1), []),
    'domain-2': ('DomainMC', dict(Depth=2), []),
}


def pure():
    """Copies of the modules whose operators TLC replaces, under names it doesn't replace."""
    d = os.path.join(core.BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    for m in ('Exact', 'Measure', 'Mesh'):
        s = open(os.path.join(core.SPEC, m + '.tla')).read()
        s = re.sub(r'MODULE %s ' % m, 'MODULE %sPure ' % m, s)
        s = re.sub(r'EXTENDS Exact\b', 'EXTENDS ExactPure', s)
        p = os.path.join(d, m + 'Pure.tla')
        t = '%s.%d' % (p, os.getpid())
        open(t, 'w').write(s)
        os.rename(t, p)
    return d


def config(module, const, replace=()):
    """The module's .cfg with other constants."""
    s = open(os.path.join(core.SPEC, module + '.cfg')).read()
    for k, v in const.items():
        s, n = re.subn(r'\b%s (=|<-) \S+' % k, '%s \\1 %s' % (k, v), s)
        if n != 1:
            raise core.ToolError('no constant %s in %s.cfg' % (k, module))
    for a, b in replace:
        if a not in s:
            raise core.ToolError('no %s in %s.cfg' % (a, module))
        s = s.replace(a, b)
    d = os.path.join(core.BUILD, 'cases')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.%d.%d.cfg' % (module, os.getpid(), abs(hash((module, s)))))
    open(p, 'w').write(s)
    return p


def run(name):
    """A model checking run: the specification's own properties, in every state of a small instance."""
    module, const, without = MODELS[name]
    lib = pure()
    cfg = config(module, const, [(w, '') for w in without])
    t0 = time.time()
    try:
        out, rc, st = core.tlc(module, cfg, heap='12g', lib=lib)
    finally:
        os.unlink(cfg)
    # the model doesn't depend on the implementation: an error is the specification's
    if rc != 0 or st is None or 'No error has been found' not in out:
        raise core.ToolError('model %s failed (exit %d):\n%s' % (name, rc, out[-3000:]))
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    return dict(model=name, module=module, constants={k: str(v) for k, v in const.items()}, distinct=st['distinct'],
                generated=st['generated'], depth=int(m.group(1)) if m else None, result='no error', wall_s=round(time.time() - t0, 1))


def printed(out):
    return [json.loads(json.loads(l)) for l in out.split('\n') if l.startswith('"{')]


def points(v):
    """Lists of two numbers are points."""
    if isinstance(v, list):
        if len(v) == 2 and not any(isinstance(x, (list, str)) for x in v):
            return tuple(v)
        return [points(x) for x in v]
    return v


def simulate(R, n, depth):
    """Random behaviours of DomainMC."""
    cfg = config('DomainMC', dict(Depth=depth, Dump='TRUE', Random='TRUE', Lo=0, Hi=4), [('Commute ', '')])
    try:
        out, rc, st = core.tlc('DomainMC', cfg, workers=1, heap='2g', lib=pure(),
                               extra=['-simulate', 'num=%d' % n, '-depth', str(depth + 2), '-seed', str(R.randrange(1 << 40))])
    finally:
        os.unlink(cfg)
    if rc != 0:
        raise core.ToolError('simulation failed (exit %d):\n%s' % (rc, out[-3000:]))
    return [(points(h['boundary']), [[o[0], points(o[1])] for o in h['ops']]) for h in printed(out)]


def pairs():
    """All behaviours of DomainMC of length 2."""
    cfg = config('DomainMC', dict(Depth=2, Dump='TRUE'), [('Commute ', ''), ('Valid Kept ', '')])
    try:
        out, rc, st = core.tlc('DomainMC', cfg, heap='8g', lib=pure())
    finally:
        os.unlink(cfg)
    if rc != 0:
        raise core.ToolError('generation failed (exit %d):\n%s' % (rc, out[-3000:]))
    return [(points(h['boundary']), [[o[0], points(o[1])] for o in h['ops']]) for h in printed(out)]


def goals(const):
    """All domains of a BuildMC instance."""
    cfg = config('BuildMC', dict(const, Dump='TRUE'), [('PROPERTY Terminates\n', ''), ('SPECIFICATION Spec', 'SPECIFICATION Still')])
    try:
        out, rc, st = core.tlc('BuildMC', cfg, heap='8g', lib=pure())
    finally:
        os.unlink(cfg)
    if rc != 0:
        raise core.ToolError('generation failed (exit %d):\n%s' % (rc, out[-3000:]))
    return sorted(({k: points(v) for k, v in g.items()} for g in printed(out)), key=json.dumps)
