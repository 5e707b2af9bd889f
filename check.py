"""check.py PROPERTY: decide one property for /repo's current tree.

Engine (python3-vt): every lemma of the property is executed symbolically over
the real code, each `ensure` becoming verification conditions for the solvers.
Replay (PyPy): the same lemmas run concretely on the real interpreter: every
refuted obligation is replayed there, undecided ones are searched (bounded),
and every lemma gets a conformance run that validates the assumed contracts.
"""
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VC_REPO', '/repo')
PYPY = '/opt/venv-pypy/bin/python'
T0 = time.time()
TIER = os.environ.get('VERIF_TIER') or 'quick'
SEED = int(os.environ.get('VERIF_SEED') or '1')
QUICK = TIER != 'thorough'
JOBS = int(os.environ.get('VC_JOBS') or '8')
# seconds
ENGINE_TOTAL = 360 if QUICK else 520
INSTANCE = 60 if QUICK else 240
CONFORM_S = 1.5 if QUICK else 10
CONFORM_N = 150 if QUICK else 2000
SEARCH_S = 25 if QUICK else 60
SEARCH_N = 6000 if QUICK else 60000
CONCRETE_TOTAL = 200 if QUICK else 240
# once this many lemmas are refuted, no new ones are started
ENOUGH = 12


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------ the engine
def child(eng, lem, p, w, budget):
    """Runs in a forked process"""
    from pyvc import engine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        if (lem.bounded or '').startswith('search only'):
            budget = 0
        r = engine.run_instance(eng, lem, p, budget=budget,
                                cvc5_all=not QUICK)
        d = r.as_dict()
        d['functions'] = r.functions
    except MemoryError:
        d = {'error': 'out of memory'}
    except BaseException:
        d = {'error': traceback.format_exc()[-3000:]}
    with os.fdopen(w, 'wb') as f:
        pickle.dump(d, f)
    os._exit(0)


def run_engine(prop):
    """-> list of (lemma name, param index, display name, dict)"""
    from pyvc import engine
    try:
        eng = engine.Engine(prop)
    except BaseException:
        return None, traceback.format_exc()[-3000:]
    todo = list(enumerate(engine.instances(prop)))
    # long ones first
    todo.sort(key=lambda x: -(x[1][0].budget or 0))
    out = {}
    live = {}
    early = QUICK and not any(f['property'] == prop for f in known_findings())
    while todo or live:
        if todo and early and sum(
                bool(hard_failures(x[3])) for x in out.values()) >= ENOUGH:
            for n, (lem, i, p) in todo:
                out[n] = (lem.name, i, engine.pname(lem, p), {
                    'skipped': True, 'trials': lem.trials,
                    'expect_bounded': lem.bounded, 'bounded': [],
                    'unsupported': [], 'timeout': False, 'imprecise': [],
                    'obligations': {}})
            todo = []
            continue
        while todo and len(live) < JOBS:
            n, (lem, i, p) = todo.pop(0)
            r, w = os.pipe()
            left = ENGINE_TOTAL - (time.time() - T0)
            b = lem.budget or INSTANCE
            if not QUICK:
                b = max(b * 4, INSTANCE)
            b = max(2, min(b, left))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(eng, lem, p, w, b)
            os.close(w)
            live[r] = [n, lem, i, p, pid, b'', time.time() + b * 1.3 + 25]
        ready, _, _ = select.select(list(live), [], [], 1)
        for r in ready:
            c = os.read(r, 1 << 20)
            if c:
                live[r][5] += c
                continue
            finish(live, r, out)
        for r in list(live):
            if time.time() > live[r][6]:
                try:
                    os.kill(live[r][4], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                finish(live, r, out)
    return [out[k] for k in sorted(out)], None


def finish(live, r, out):
    from pyvc import engine
    n, lem, i, p, pid, buf, _ = live.pop(r)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        d = pickle.loads(buf)
    except Exception:
        d = {'error': 'the engine process died'}
    d.setdefault('name', engine.pname(lem, p))
    d['expect_bounded'] = lem.bounded
    if (lem.bounded or '').startswith('search only'):
        d.update(search_only=True, bounded=[lem.bounded], obligations={},
                 unsupported=[], timeout=False)
        d.pop('error', None)
    d['trials'] = lem.trials
    out[n] = (lem.name, i, engine.pname(lem, p), d)


# ----------------------------------------------------------- the replays
def run_concrete(prop, tasks, specs):
    """Run the tasks on PyPy, several processes; -> {id: result}"""
    if not tasks:
        return {}, None
    tasks = sorted(tasks, key=lambda t: -t['budget_s'])
    n = min(JOBS, len(tasks))
    res = {}
    err = None
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    with tempfile.TemporaryDirectory(prefix='vc-') as tmp:
        procs = []
        for k in range(n):
            part = tasks[k::n]
            a, b = '%s/t%d.json' % (tmp, k), '%s/r%d.jsonl' % (tmp, k)
            with open(a, 'w') as f:
                json.dump({'specs': specs, 'tasks': part}, f)
            procs.append((subprocess.Popen(
                [PYPY, '-B', HERE + '/runtime/vc.py', a, b], env=env,
                cwd=tmp, stdout=subprocess.DEVNULL,
                stderr=open('%s/e%d' % (tmp, k), 'w')), b,
                '%s/e%d' % (tmp, k)))
        limit = time.time() + CONCRETE_TOTAL + 30
        for pr, b, e in procs:
            try:
                pr.wait(max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
            try:
                with open(b) as f:
                    for line in f:
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        res[d['id']] = d
            except OSError:
                pass
            if pr.returncode != 0:
                with open(e) as f:
                    err = f.read()[-3000:]
    return res, err


def spec_files(prop):
    return [f[:-3] for f in sorted(os.listdir(HERE + '/specs'))
            if f.lower().startswith(prop.lower() + '_')
            and f.endswith('.py')]


def known_findings():
    p = HERE + '/known-findings.json'
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(prop):
    specs = spec_files(prop)
    if not specs:
        log('no such property', prop)
        return 2
    results, load_error = run_engine(prop)
    engine_s = time.time() - T0
    if results is None:
        log('engine could not load the code (bounded search stands in): '
            + load_error.strip().splitlines()[-1][:300])
        listing = subprocess.run(
            [PYPY, '-B', HERE + '/runtime/list.py', json.dumps(specs)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if listing.returncode != 0:
            log(listing.stderr.decode()[-2000:])
            return 2
        results = [(nm, i, disp, {'error': load_error, 'trials': None})
                   for nm, i, disp in json.loads(listing.stdout)]

    tasks = []
    weight = 0
    for k, (nm, i, disp, d) in enumerate(results):
        d['status'] = status(d)
        search = d['status'] != 'proved' and not (
            d['status'] == 'bounded' and d.get('expect_bounded'))
        weight += SEARCH_S if search else CONFORM_S
    scale = min(1.0, CONCRETE_TOTAL * JOBS / max(weight, 1))
    for k, (nm, i, disp, d) in enumerate(results):
        cex = []
        for o in d.get('obligations', {}).values():
            for c in o['failed']:
                if 'inputs' in c:
                    cex.append(c['inputs'])
        search = d['status'] != 'proved' and not (
            d['status'] == 'bounded' and d.get('expect_bounded'))
        mult = 4 if d['status'] == 'bounded' and d.get('expect_bounded') \
            else 1
        tasks.append({
            'id': k, 'lemma': nm, 'param': i, 'cex': cex[:20],
            'seed': '%d/%s' % (SEED, disp),
            'budget_s': (SEARCH_S if search else CONFORM_S * mult) * scale,
            'trials': SEARCH_N if search else (
                (d.get('trials') or CONFORM_N) * mult),
        })
    # what the verifier refuted comes first; where the real code confirms
    # it, there is nothing left to search for
    first = [t for t in tasks if t['cex']]
    conc, conc_err = {}, None
    if first and QUICK and not any(
            f['property'] == prop for f in known_findings()):
        for t in first:
            t['budget_s'] = min(SEARCH_S, 80 * JOBS / len(first))
        conc, conc_err = run_concrete(prop, first, specs)
        rest = [t for t in tasks if not t['cex']]
        if not any(c['verdict'] == 'fail' for c in conc.values()):
            c2, conc_err = run_concrete(prop, rest, specs)
            conc.update(c2)
        tasks = first
    else:
        conc, conc_err = run_concrete(prop, tasks, specs)
    if conc_err and len(conc) < len(tasks):
        log('replay process failed:\n' + conc_err)

    known = [f for f in known_findings() if f['property'] == prop]
    violations, findings, noanswer = [], [], []
    for k, (nm, i, disp, d) in enumerate(results):
        c = conc.get(k, {'verdict': 'none'})
        d['concrete'] = {x: c.get(x) for x in (
            'verdict', 'runs', 'skipped', 'distinct', 'ensured', 'covers',
            'hangs', 'error', 'sample')}
        v = None
        if c['verdict'] == 'fail':
            v = {'lemma': nm, 'param': i, 'name': disp, 'label': c['label'],
                 'inputs': c['inputs'], 'seed': c['seed'],
                 'notes': c.get('notes'), 'witness': True,
                 'how': 'counterexample of the verifier replayed on the '
                        'real code' if c.get('from_cex') else
                        'found by search on the real code'}
        else:
            hard = hard_failures(d)
            if hard:
                o, cx = hard[0]
                v = {'lemma': nm, 'param': i, 'name': disp, 'label': o,
                     'inputs': cx.get('inputs'), 'witness': False,
                     'notes': cx.get('notes'),
                     'how': 'the verifier refutes the obligation; no input '
                            'found on the real code'}
        if v:
            v['verifier'] = {o: x['failed'] for o, x in
                             d.get('obligations', {}).items()
                             if x['failed']}
            v['specs'] = specs
            m = [f for f in known if f['lemma'] == nm
                 and f.get('param', 0) == i and f['label'] == v['label']]
            (findings if m else violations).append((v, m))
        elif c['verdict'] in ('none', 'error') and d['status'] != 'proved':
            noanswer.append((disp, d['status'], c.get('error')))

    for v, m in findings:
        log('KNOWN-FINDING: property=%s %s' % (prop, m[0]['what']))
    write_evidence(prop, results, violations, findings, engine_s)
    summarise(prop, results)
    if violations:
        os.makedirs(HERE + '/out', exist_ok=True)
        for n, (v, _) in enumerate(violations):
            path = '%s/out/%s-%d.json' % (HERE, prop, n)
            v['property'] = prop
            v['replay_cmd'] = '%s -B %s/runtime/vc.py --replay %s' % (
                PYPY, HERE, path)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            log('failed obligation: %s: %s (%s)' % (
                v['name'], v['label'], v['how']))
            log('VIOLATION property=%s replay=%s%s' % (
                prop, path, '' if v['witness'] else
                ' no-failing-input-found'))
        return 1
    if noanswer:
        for x in noanswer:
            log('no answer for %s (%s): %s' % x)
        return 2
    return 0


def status(d):
    if d.get('error'):
        return 'error'
    if d.get('skipped'):
        return 'skipped'
    if d.get('search_only'):
        return 'bounded'
    if any(o['failed'] for o in d['obligations'].values()):
        return 'refuted'
    if d['unsupported'] or d['timeout'] or any(
            o['unknown'] for o in d['obligations'].values()):
        return 'undecided'
    if not d['obligations'] or not d.get('alive'):
        return 'undecided'
    if d['bounded'] or d.get('expect_bounded'):
        return 'bounded'
    return 'proved'


def hard_failures(d):
    out = []
    for label, o in d.get('obligations', {}).items():
        for c in o['failed']:
            if 'inputs' in c and not c['imprecise']:
                out.append((label, c))
    return out


TRUSTED = [
    'pyvc: the symbolic executor in /verif/pyvc (AST instrumentation of the '
    'unmodified sources, proxies for int/float/str/bytes/list/dict), checked '
    'on every run by concrete conformance runs on PyPy 3.9',
    'the SMT solvers named under back_ends',
    'assumed contracts of dependencies (coincurve, pyelliptic, pycryptodome, '
    'cbor, eth_utils, semantic_version, hashlib, ipaddress, uuid, datetime) '
    'in /verif/pyvc/models',
]


def write_evidence(prop, results, violations, findings, engine_s):
    obl = dis = vcs = 0
    by = {}
    funcs = set()
    assumptions = set()
    bounded, undecided = [], []
    solver_s = 0
    evals = nontriv = 0
    samples = []
    contracts = []
    covers_missing = []
    for nm, i, disp, d in results:
        for f in d.get('functions', ()):
            funcs.add(f)
        assumptions.update(d.get('assumptions', ()))
        solver_s += d.get('solver_s', 0)
        n_ok = 0
        counted = d['status'] in ('proved', 'refuted')
        for label, o in d.get('obligations', {}).items():
            obl += 1
            vcs += o['vcs']
            if counted and not o['failed'] and not o['unknown']:
                dis += 1
                n_ok += 1
                for b, n in o['by'].items():
                    by[b] = by.get(b, 0) + n
        if d['status'] == 'bounded':
            bounded.append({'lemma': disp, 'bound': list(d['bounded']) or [
                d.get('expect_bounded')]})
        elif d['status'] not in ('proved', 'refuted'):
            undecided.append({'lemma': disp, 'why': (
                [d['error'].strip().splitlines()[-1][:300]]
                if d.get('error') else d['unsupported'][:5] + (
                    ['time budget'] if d.get('timeout') else []) + [
                    'solver unknown: ' + k
                    for k, o in d['obligations'].items()
                    if o['unknown']] + (
                        ['no path to the end can be taken']
                        if not d.get('alive') else []))})
            if not d.get('obligations'):
                obl += 1
        c = d['concrete']
        evals += c.get('runs') or 0
        nontriv += c.get('distinct') or 0
        if c.get('sample') and len(samples) < 5:
            samples.append({'lemma': disp, 'inputs': c['sample']})
        contracts.append({'lemma': disp, 'status': d['status'],
                          'obligations': len(d.get('obligations', ())),
                          'discharged': n_ok, 'paths': d.get('paths'),
                          'concrete_runs': c.get('runs')})
        reached = set(c.get('covers') or ())
        for k, x in d.get('covers', {}).items():
            if x != 'reached' and k not in reached:
                covers_missing.append('%s: %s' % (disp, k))
    ev = {
        'property': prop, 'tier': 'quick' if QUICK else 'thorough',
        'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'verification_conditions': vcs, 'back_ends': by,
            'checker_cmd': 'VERIF_TIER=%s %s/check.sh %s' % (
                TIER, HERE, prop),
            'trusted_base': TRUSTED,
            'functions_under_contract': sorted(funcs),
            'lemmas': contracts,
            'bounded_stand_ins': bounded,
            # a path to the end with satisfiable premises: shown by a model,
            # by a concrete run, or neither
            'premises_satisfiable': {
                'by_model': sum(x[3].get('alive') == 'sat' for x in results),
                'by_run_only': sum(
                    x[3].get('alive') != 'sat'
                    and bool(x[3]['concrete'].get('distinct'))
                    for x in results),
                'not_shown': [
                    x[2] for x in results if x[3].get('alive') != 'sat'
                    and not x[3]['concrete'].get('distinct')]},
            'undecided_searched_only': undecided,
            'solver_s': round(solver_s, 2), 'engine_s': round(engine_s, 2),
            'evaluations': evals, 'distinct_nontrivial': nontriv,
            'rule': 'concrete conformance runs of the same lemmas on PyPy; '
                    'non-trivial: satisfies the lemma\'s assumptions and '
                    'has not been tried before',
            'samples': samples,
            'covers_not_reached': covers_missing,
            'known_findings': [m[0]['what'] for v, m in findings],
        },
        'assumptions': sorted(assumptions),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(violations),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def summarise(prop, results):
    n = {}
    for nm, i, disp, d in results:
        n[d['status']] = n.get(d['status'], 0) + 1
        if d['status'] != 'proved' or os.environ.get('VC_VERBOSE'):
            why = d.get('error', '').strip()[-600:] or '; '.join(
                (d['unsupported'][:3] + d['bounded'][:3]
                 + (['time budget'] if d['timeout'] else [])
                 + ['failed: ' + k for k, o in d['obligations'].items()
                    if o['failed']]
                 + ['unknown: ' + k for k, o in d['obligations'].items()
                    if o['unknown']]))
            log('  %s: %s (%s) [%s paths, %.1f s; %s concrete runs, %s]' % (
                disp, d['status'], why, d.get('paths'), d.get('wall_s', 0),
                d['concrete'].get('runs'), d['concrete'].get('verdict')))
            if d['imprecise'] if not d.get('error') else False:
                log('     imprecise: ' + '; '.join(d['imprecise'])[:500])
    with open('%s/evidence/%s.json' % (HERE, prop)) as f:
        ev = json.load(f)['coverage']
    for x in ev['covers_not_reached']:
        log('  not reached: ' + x)
    log('%s: %s; %d of %d obligations discharged, %d concrete runs, '
        '%.1f s' % (prop, ', '.join('%d lemmas %s' % (v, k)
                                    for k, v in sorted(n.items())),
                    ev['discharged'], ev['obligations'],
                    ev['evaluations'], time.time() - T0))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
