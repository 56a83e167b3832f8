"""check.py <property> [quick|thorough]  |  check.py --replay <file>

Decides one property of properties.jsonl; see DESIGN.md."""
import fnmatch, json, os, random, sys, time, hashlib
import concurrent.futures as cf
os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, props


def family(name):
    for m in props.modules():
        if name in m.FAMILIES:
            return m
    raise KeyError(name)


def rng(seed, name):
    return random.Random(int(hashlib.sha256(('%s/%s' % (seed, name)).encode()).hexdigest()[:12], 16))


def shard(job):
    name, seed, i, n = job
    return list(family(name).FAMILIES[name](rng('%s/%d' % (seed, i), name), n))


def generate(name, seed, n):
    """n cases of a family, generated in parallel (in a fixed order)."""
    k = getattr(family(name), 'SHARDS', {}).get(name, 16)
    jobs = [(name, seed, i, n // k + (i < n % k)) for i in range(k)]
    with cf.ProcessPoolExecutor(core.NPROC) as ex:
        return [c for l in ex.map(shard, [j for j in jobs if j[3]]) for c in l]


def matches(clause, patterns):
    return any(fnmatch.fnmatchcase(clause, p) for p in patterns)


def save_replay(prop, n, rec):
    d = os.path.join(core.BUILD, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def run(prop, tier, seed):
    t0 = time.time()
    P = props.PROPS[prop]
    mods = {}
    for fam, quick, thorough in P['families']:
        mods.setdefault(family(fam), []).append((fam, quick if tier == 'quick' else thorough))
    tools = core.build(cli=any(getattr(m, 'CLI', False) for m in mods), draw=P.get('draw', False))
    cov = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces_validated_against_impl=0,
               families={}, exercised={}, samples=[], models=[])
    violations, tagcount, seen = [], {}, set()
    # the specification's own model checking runs
    for r in props.models(P, tier):
        cov['models'].append(r)
        cov['states'] += r['distinct']
        cov['transitions'] += r['generated']
    known = [k for k in props.known() if k['property'] == prop]
    for m, fams in mods.items():
        cases, origin = [], {}
        for fam, n in fams:
            if not n:
                continue
            n0 = len(cases)
            if tier == 'thorough' and os.environ.get('VERIF_SCALE'):
                n = int(n * float(os.environ['VERIF_SCALE']))
            for c in generate(fam, seed, n):
                c['id'] = len(cases)
                origin[c['id']] = fam
                cases.append(c)
            cov['families'][fam] = len(cases) - n0
        for k in known:
            if family(k['family']) is m:
                c = dict(k['case'], id=len(cases), known=k['id'])
                origin[c['id']] = 'known'
                cases.append(c)
        if not cases:
            continue
        t1 = time.time()
        res = m.drive(tools, cases) if hasattr(m, 'drive') else core.drive(tools['driver'], cases)
        done = [c for c in cases if c['id'] in res]
        recs = [m.encode(c, res[c['id']]) for c in done]
        if len(done) < len(cases):
            print('note: %d of %d cases were not run (crashes or time)' % (len(cases) - len(done), len(cases)))
        t2 = time.time()
        broken, tags, st = core.tracecheck(m.MODULE, recs)
        cov['timing'] = dict(generate=round(t1 - t0, 1), drive=round(t2 - t1, 1), check=round(time.time() - t2, 1))
        cov['states'] += st['distinct']
        cov['transitions'] += st['generated'] - len(recs) if st['generated'] > len(recs) else 0
        cov['traces_validated_against_impl'] += len(recs)
        cov['evaluations'] += sum(len(r['events']) for r in recs)
        byid = {c['id']: c for c in done}
        held = set()
        for i, ts in tags.items():
            for t in ts:
                tagcount[t] = tagcount.get(t, 0) + 1
            if any(matches(t, P['tags']) for t in ts):
                held.add(i)
        for i in held:
            c = dict(byid[i])
            c.pop('id'), c.pop('seed', None)
            h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                cov['distinct_nontrivial'] += 1
                if len(cov['samples']) < 2 and origin[i] != 'known':
                    cov['samples'].append(dict(family=origin[i], case=byid[i]))
        for i, step, op, clauses in broken:
            mine = [x for x in clauses if matches(x, P['clauses'])]
            if mine:
                violations.append(dict(module=m.MODULE, family=origin[i], case=byid[i], step=step, op=op, clauses=mine,
                                       recorded=next(r for r in recs if r['id'] == i)))
    listed = {}
    new = []
    for v in violations:
        k = v['case'].get('known')
        if k:
            listed[k] = v
        else:
            new.append(v)
    for k in known:
        if k['id'] in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
    new.sort(key=lambda v: len(json.dumps(v['case'])))
    for n, v in enumerate(new[:5]):
        path = save_replay(prop, n, dict(property=prop, module=v['module'], family=v['family'], clauses=v['clauses'],
                                         step=v['step'], op=v['op'], case=v['case'], recorded=v['recorded']))
        print('broken: step %d (%s) of a %s case: %s' % (v['step'], v['op'], v['family'], ', '.join(v['clauses'])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    need = P.get('min_held', 1)
    cov['exercised'] = dict(sorted(tagcount.items()))
    cov['rule'] = P['rule']
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'model_checking'), coverage=cov,
              assumptions=P.get('assumptions', props.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(core.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(core.ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not new and cov['distinct_nontrivial'] < need:
        raise core.ToolError('only %d non-trivial cases' % cov['distinct_nontrivial'])
    print('%s %s: %d cases, %d non-trivial, %d states, %d violations, %.1f s' % (
        prop, tier, cov['traces_validated_against_impl'], cov['distinct_nontrivial'], cov['states'], len(new), time.time() - t0))
    return 1 if new else 0


def replay(path):
    v = json.load(open(path))
    m = family(v['family']) if v['family'] != 'known' else next(m for m in props.modules() if m.MODULE == v['module'])
    tools = core.build(cli=getattr(m, 'CLI', False), draw=props.PROPS.get(v['property'], {}).get('draw', False))
    res = m.drive(tools, [v['case']]) if hasattr(m, 'drive') else core.drive(tools['driver'], [v['case']])
    rec = m.encode(v['case'], res[v['case']['id']])
    broken, tags, st = core.tracecheck(m.MODULE, [rec])
    print(json.dumps(rec))
    for b in broken:
        print('broken: step %d (%s): %s' % (b[1], b[2], ', '.join(b[3])))
    return 1 if broken else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return run(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    try:
        sys.exit(main())
    except core.ToolError as e:
        print('check could not be run: %s' % e, file=sys.stderr)
        sys.exit(2)
