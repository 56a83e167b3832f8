"""Build, run and trace-check: the plumbing shared by every check."""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def cargo(args, cwd, target):
    os.makedirs(target, exist_ok=True)
    env = f'. /opt/vp/env.sh >/dev/null 2>&1; cd {cwd} || exit 1; export CARGO_TARGET_DIR={target}; '
    r = sh(['bash', '-c', env + 'export RUSTFLAGS=-Awarnings; cargo ' + args], cwd=cwd)
    if r.returncode != 0:
        raise ToolError('cargo %s failed in %s:\n%s' % (args, cwd, r.stderr[-4000:]))


def driver_dir():
    """The driver crate; for another working tree than /repo, a copy that depends on it."""
    if REPO == '/repo':
        return os.path.join(ROOT, 'driver')
    d = os.path.join(BUILD, 'driver-alt')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, 'driver'), d, ignore=shutil.ignore_patterns('target'))
    for p, old in (('Cargo.toml', 'path = "/repo"'), ('src/show.rs', 'path = "/repo/')):
        p = os.path.join(d, p)
        s = open(p).read().replace(old, old.replace('/repo', REPO))
        open(p, 'w').write(s)
    return d


def build(cli=False, draw=False):
    """Rebuilds the driver (and the command line program) from the repository's working tree."""
    t = os.path.join(BUILD, 'target' if REPO == '/repo' else 'target-alt')
    cargo('build --offline -q' + (' --features draw' if draw else ''), driver_dir(), t)
    drv = os.path.join(t, 'debug', 'driver')
    out = {'driver': drv}
    if cli:
        tc = os.path.join(BUILD, 'target-cli' if REPO == '/repo' else 'target-cli-alt')
        cargo('build --offline -q --bins', REPO, tc)
        bins = [f for f in os.listdir(os.path.join(tc, 'debug'))
                if os.access(os.path.join(tc, 'debug', f), os.X_OK)
                and os.path.isfile(os.path.join(tc, 'debug', f)) and '.' not in f]
        if len(bins) != 1:
            raise ToolError('expected one program, found %s' % bins)
        out['cli'] = os.path.join(tc, 'debug', bins[0])
    java()
    return out


def java():
    cls = os.path.join(BUILD, 'java')
    os.makedirs(cls, exist_ok=True)
    srcs = [os.path.join(ROOT, 'java', f) for f in sorted(os.listdir(os.path.join(ROOT, 'java'))) if f.endswith('.java')]
    outs = [os.path.join(cls, os.path.basename(s)[:-5] + '.class') for s in srcs]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for s, o in zip(srcs, outs)):
        return
    r = sh(['javac', '-cp', TLA + '/tla2tools.jar', '-d', cls] + srcs)
    if r.returncode != 0:
        raise ToolError('javac failed:\n' + r.stderr)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(driver, batch, ms, env=None):
    return subprocess.run([driver], input='\n'.join(json.dumps(c) for c in batch) + '\n', stdout=subprocess.PIPE,
                          stderr=subprocess.DEVNULL, text=True, preexec_fn=limits, env=dict(os.environ, CASE_MS=str(ms), **(env or {})))


def crash_site(driver, case, ms):
    """The case killed the process: finds the step and has it recorded as crashed."""
    ops = case.get('ops', [])
    for i in range(len(ops) + 1):
        p = run_driver(driver, [dict(case, ops=ops[:i])], ms)
        if p.returncode != 0:
            p = run_driver(driver, [dict(case, ops=ops[:i], fatal=i - 1)], ms)
            if p.returncode == 0 and p.stdout.startswith('{'):
                return json.loads(p.stdout)
            break
    raise ToolError('the driver dies on case %s' % json.dumps(case)[:500])


def drive(driver, cases, ms=10000, nproc=NPROC, budget=600, env=None):
    """Runs the cases, in parallel batches; returns id -> recorded case.

    A case that hangs or kills the process is data (its last step is recorded
    as crashed); after many of them, or when the budget is used up, the rest is skipped."""
    batches = [cases[i::nproc * 3] for i in range(nproc * 3)]
    batches = [b for b in batches if b]
    t0, crashes = time.time(), []

    def one(batch):
        out, i = [], 0
        while i < len(batch) and len(crashes) < 24 and time.time() - t0 < budget:
            p = run_driver(driver, batch[i:], ms, env)
            got = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{') and l.endswith('}')]
            out += got
            i += len(got)
            if p.returncode == 3:
                crashes.append(1)
                # a hang has to show again, alone and with more time
                q = run_driver(driver, [batch[i - 1]], 3 * ms, env)
                if q.returncode == 0 and q.stdout.startswith('{'):
                    out[-1] = json.loads(q.stdout)
            elif p.returncode != 0 and i < len(batch):
                crashes.append(1)
                out.append(crash_site(driver, batch[i], ms))
                i += 1
            elif p.returncode == 0 and i < len(batch):
                raise ToolError('driver stopped early')
        return out

    res = {}
    with cf.ThreadPoolExecutor(nproc) as ex:
        for o in ex.map(one, batches):
            for r in o:
                if 'error' in r:
                    raise ToolError('driver error in case %s: %s' % (r['id'], r['error']))
                res[r['id']] = r
    return res


TLC_RE = re.compile(r'<<\s*"(BROKEN|TAGS)",\s*(.*)>>$')


def tlc(module, cfg, env=None, workers=NPROC, heap='8g', extra=(), timeout=3000, deadlock=False, lib=None):
    """Runs TLC on spec/<module>.tla; returns (stdout, stats)."""
    meta = os.path.join(BUILD, 'tlc', '%s.%d.%d' % (module, os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    # coverage of overridden operators depends on the class path order
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta] + (['-DTLA-Library=' + lib] if lib else []) + [
           '-cp', ':'.join([os.path.join(BUILD, 'java'), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + ([] if deadlock else ['-deadlock']) + list(extra) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise ToolError('TLC ran out of time on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    stats = {'generated': int(m.group(1)), 'distinct': int(m.group(2))} if m else None
    return out, r.returncode, stats


def parse_tla(s):
    """A printed TLA+ value made of tuples, sets, strings and integers."""
    s = s.replace('<<', '[').replace('>>', ']').replace('{', '[').replace('}', ']')
    return json.loads(s)


def tracecheck(module, cases, chunk=3000):
    """Checks recorded cases against spec/<module>.tla.

    Returns (list of (case id, step, op, [clauses]), {case id: tags}, stats)."""
    broken, tags, total = [], {}, {'generated': 0, 'distinct': 0, 'runs': 0}
    os.makedirs(os.path.join(BUILD, 'cases'), exist_ok=True)
    for i in range(0, len(cases), chunk):
        path = os.path.join(BUILD, 'cases', '%s.%d.%d.ndjson' % (module, os.getpid(), i))
        with open(path, 'w') as f:
            for c in cases[i:i + chunk]:
                f.write(json.dumps(c) + '\n')
        out, rc, st = tlc(module, module + '.cfg', env={'CASES': path})
        os.unlink(path)
        if rc != 0 or st is None:
            raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, rc, out[-2500:]))
        for line in join_lines(out):
            m = TLC_RE.match(line)
            if m and m.group(1) == 'BROKEN':
                v = parse_tla('[' + m.group(2) + ']')
                broken.append((v[0], v[1], v[2], tuple(sorted(v[3]))))
            elif m:
                v = parse_tla('[' + m.group(2) + ']')
                tags[v[0]] = v[1]
        total['generated'] += st['generated']
        total['distinct'] += st['distinct']
        total['runs'] += 1
        missing = [c['id'] for c in cases[i:i + chunk] if c['id'] not in tags]
        if missing:
            raise ToolError('no verdict on cases %s' % missing[:5])
    return sorted(set(broken)), tags, total


def join_lines(out):
    """TLC wraps long printed values; puts each value on one line again."""
    buf = None
    for line in out.split('\n'):
        if line.startswith('<<'):
            if buf is not None:
                yield buf
            buf = line.strip()
        elif buf is not None and line.startswith(' '):
            buf += ' ' + line.strip()
        elif buf is not None:
            yield buf
            buf = None
    if buf is not None:
        yield buf
