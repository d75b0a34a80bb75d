"""Seeded search over simulated runs for one property.

  check <property> [--tier quick|thorough] [--seed N] [--runs N] [--repo DIR] [--workers N]
  check --replay FILE

Exit 0: held on everything explored.  1: VIOLATION line printed.  2: error of the check itself.
"""
import argparse
import collections
import copy
import gc
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

real_time = time.time
real_perf = time.perf_counter
CPU_LIMIT = 120       # of one simulated run; scenarios can have their own
SHRINK = ('ops', 'prefix', 'clients', 'after', 'texts', 'steps', 'faults', 'crashes', 'procs', 'items', 'opens', 'noise',
          'synsets', 'pages', 'choices')
MODULES = {'C01': 'history', 'C02': 'history', 'C03': 'history', 'C04': 'history', 'C05': 'crash', 'C06': 'crash',
           'C07': 'failure', 'C08': 'batch', 'C09': 'concurrent', 'C10': 'locks', 'C11': 'beliefs', 'C12': 'bulk',
           'C13': 'wordnet', 'C14': 'opening', 'C15': 'mysql', 'C16': 'meaning', 'C17': 'extract', 'C18': 'dump',
           'C19': 'traverse'}


class Hang(BaseException):
    pass


def on_prof(sig, frame):
    raise Hang('too much CPU time for one simulated run')


def load(prop, repo):
    from sim import seams
    seams.install(repo, nltk=prop == 'C13')
    mod = importlib.import_module('sim.scen_' + MODULES[prop])
    gc.collect()
    gc.freeze()
    return mod


def run_plan(mod, prop, plan):
    """One simulated execution.  Returns (ctx, violation or None)."""
    from sim import core
    ctx = core.Ctx(plan['seed'])
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CPU_LIMIT), 2)
    vio = None
    try:
        mod.run(plan, ctx, prop)
    except core.Violation as v:
        vio = v
    except Hang as h:
        vio = core.Violation('hang', str(h))
    except core.HarnessError:
        raise
    except core.Unusable:
        pass
    except Exception as e:
        # an error of the code under test where the scenario did not expect any
        if not from_code(e):
            raise
        vio = core.Violation('exception', 'unexpected: %r' % e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if vio is None or vio.kind != 'hang':
        try:
            ctx.finish()
        except core.HarnessError:
            if vio is None:
                raise
    if vio is not None:
        ctx.log('violation', vio.kind, vio.msg)
    return ctx, vio


def from_code(e):
    """Was the exception raised in the code under test (or below it), rather than in the harness?"""
    from sim import seams
    repo = os.path.realpath(seams._installed) + os.sep
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    if not any(f.startswith(repo) for f in files):
        return False
    last = max(i for i, f in enumerate(files) if f.startswith(repo))
    return all(not f.startswith(HERE) or f.endswith(('seams.py', 'vfs.py', 'mysqlsim.py', 'nlpsim.py', 'wnsim.py')) for f in files[last + 1:])


def make_plan(mod, prop, seed, i, tier):
    rng = random.Random('%s:%s:%d' % (seed, prop, i))
    plan = mod.gen(rng, prop, tier, i)
    plan['seed'] = '%s:%s:%d' % (seed, prop, i)
    return plan


def read_known(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    parts = line.split(None, 3)
                    out[parts[2].split('=', 1)[1]] = parts[3].strip()
    except IOError:
        pass
    return out


# -- worker ------------------------------------------------------------------------------------------------------
def worker(a):
    signal.signal(signal.SIGPROF, on_prof)
    # threads of the simulator hand over explicitly
    t0 = real_perf()
    mod = load(a.prop, a.repo)
    known = read_known(a.prop)
    res = dict(runs=0, cases=0, faults=collections.Counter(), states=set(), orders=set(), digests=set(), nontrivial=set(),
               sim_time=0.0, samples=[], violation=None, known={}, error=None, replay_mismatch=0, replayed=0, cut=False)
    i = a.start
    try:
        while i < a.runs:
            if real_perf() - t0 > a.deadline:
                res['cut'] = True
                break
            plan = make_plan(mod, a.prop, a.seed, i, a.tier)
            text = json.dumps(plan)
            plan = json.loads(text)
            ctx, vio = run_plan(mod, a.prop, plan)
            if i % 97 == 3 and vio is None:
                ctx2, vio2 = run_plan(mod, a.prop, json.loads(text))
                res['replayed'] += 1
                if ctx2.hash.hexdigest() != ctx.hash.hexdigest():
                    res['replay_mismatch'] += 1
            res['runs'] += 1
            res['cases'] += ctx.cases
            res['faults'].update(ctx.faults)
            res['states'] |= ctx.states
            res['orders'] |= ctx.orders
            res['sim_time'] += ctx.sim_time
            d = ctx.hash.hexdigest()
            res['digests'].add(d)
            if ctx.cases:
                res['nontrivial'].add(d)
            if len(res['samples']) < 1 and a.start == 0:
                res['samples'].append(dict(run=i, plan=text[:1500], events=[repr(e)[:160] for e in ctx.events[:12]]))
            if vio is not None:
                if vio.ident in known:
                    res['known'][vio.ident] = '%s (%s)' % (known[vio.ident], str(vio)[:300])
                else:
                    res['violation'] = dict(run=i, kind=vio.kind, msg=vio.msg, plan=json.loads(text))
                    break
            i += a.step
    except BaseException:
        import traceback
        res['error'] = 'run %d: %s' % (i, traceback.format_exc())
    res['faults'] = dict(res['faults'])
    for k in ('states', 'orders', 'digests', 'nontrivial'):
        res[k] = sorted(res[k])
    res['wall'] = real_perf() - t0
    with open(a.out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


# -- minimiser -------------------------------------------------------------------------------------------------------
def shrink_sites(node, path=()):
    """Paths of lists from which elements can be dropped."""
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list):
                if k in SHRINK:
                    yield path + (k,)
                for s in shrink_sites(v, path + (k,)):
                    yield s
            elif isinstance(v, dict):
                for s in shrink_sites(v, path + (k,)):
                    yield s
    elif isinstance(node, list):
        if node and node[0] in ('addm', 'rmm', 'batch', 'bulk') and len(node) > 1 and isinstance(node[1], list):
            yield path + (1,)
            if node[0] == 'batch':
                for s in shrink_sites(node[1], path + (1,)):
                    yield s
        elif node and node[0] == 'beliefm':
            yield path + (2,)
        elif node and node[0] == 'hg':
            for s in shrink_sites(node[1], path + (1,)):
                yield s
        elif node and isinstance(node[0], (list, dict)):
            for i, v in enumerate(node):
                for s in shrink_sites(v, path + (i,)):
                    yield s


def at(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(mod, prop, plan, kind, budget):
    from sim import core
    t0 = real_perf()
    tries = [0]

    def fails(p):
        tries[0] += 1
        try:
            _, v = run_plan(mod, prop, json.loads(json.dumps(p)))
        except BaseException:
            return False
        return v is not None and v.kind == kind
    best = plan
    from sim import scen_concurrent
    ctx, v = run_plan(mod, prop, json.loads(json.dumps(plan)))
    cand = scen_concurrent.prepare_minimise(copy.deepcopy(plan), ctx)
    if fails(cand):
        best = cand
    changed = True
    while changed and real_perf() - t0 < budget:
        changed = False
        for path in sorted(set(shrink_sites(best)), key=lambda p: (len(p), str(p))):
            try:
                n = len(at(best, path))
                if not isinstance(at(best, path), list):
                    continue
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and real_perf() - t0 < budget:
                i = 0
                while i < n and real_perf() - t0 < budget:
                    cand = copy.deepcopy(best)
                    li = at(cand, path)
                    del li[i:i + size]
                    least = 1 if isinstance(path[-1], int) and at(cand, path[:-1])[0] in ('addm', 'rmm', 'beliefm') else 0
                    if len(li) >= least and fails(cand):
                        best = cand
                        n = len(li)
                        changed = True
                    else:
                        i += size
                size //= 2
        for simpler in (getattr(mod, 'simplify', None), scen_concurrent.simplify):
            if simpler is None:
                continue
            for cand in list(simpler(copy.deepcopy(best))):
                if real_perf() - t0 > budget:
                    break
                if fails(cand):
                    best = cand
                    changed = True
    return best, tries[0]


def minimise_proc(a):
    signal.signal(signal.SIGPROF, on_prof)
    with open(a.job) as f:
        job = json.load(f)
    mod = load(a.prop, a.repo)
    plan, tries = job['plan'], 0
    if job['kind'] != 'hang':
        plan, tries = minimise(mod, a.prop, plan, job['kind'], a.budget)
    ctx, vio = run_plan(mod, a.prop, json.loads(json.dumps(plan)))
    confirmed = vio is not None
    out = dict(property=a.prop, seed=job['seed'], run=job['run'], plan=plan, original_plan=job['plan'], minimiser_runs=tries,
               violation=str(vio) if vio else '%s: %s' % (job['kind'], job['msg']), reproduced=confirmed,
               digest=ctx.hash.hexdigest(), events=[repr(e)[:300] for e in ctx.events[-400:]], faults=dict(ctx.faults),
               replay='/verif/check --replay <this file>')
    with open(a.out, 'w') as f:
        json.dump(out, f, indent=1)
    sys.stdout.flush()
    os._exit(0)


def replay(a):
    signal.signal(signal.SIGPROF, on_prof)
    with open(a.replay) as f:
        rec = json.load(f)
    prop = rec['property']
    mod = load(prop, a.repo)
    ctx, vio = run_plan(mod, prop, rec['plan'])
    same = ctx.hash.hexdigest() == rec['digest']
    for e in ctx.events:
        print('  ', repr(e)[:300])
    print('digest %s, recorded %s: %s' % (ctx.hash.hexdigest(), rec['digest'], 'identical' if same else 'DIFFERENT'))
    code = 0
    if vio is not None:
        print(str(vio))
        print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        code = 1
    else:
        print('the property holds on this execution')
    sys.stdout.flush()
    os._exit(code)


def selftest(a):
    """Do the seams work here?  (Nothing has to be built: the code under test is imported from the working tree.)"""
    from sim import seams
    seams.install(a.repo)
    print('seams installed; code under test: %s' % a.repo)
    sys.stdout.flush()
    os._exit(0)


# -- parent ------------------------------------------------------------------------------------------------------------
def spawn(args):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)] + args, env=env, cwd=VERIF)


def main():
    sys.stdout.reconfigure(errors='backslashreplace')
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO') or '/repo')
    ap.add_argument('--replay')
    ap.add_argument('--mode', default='parent')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--out')
    ap.add_argument('--job')
    ap.add_argument('--budget', type=float, default=25)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest(a)
    if a.mode == 'worker':
        return worker(a)
    if a.mode == 'minimise':
        return minimise_proc(a)
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0')
        os.execve(sys.executable, [sys.executable, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:], env)
    if a.replay:
        return replay(a)
    from sim import spec
    sp = spec.SPECS[a.prop]
    runs = a.runs or sp['thorough' if a.tier == 'thorough' else 'quick']
    deadline = a.deadline or (3 * 3600 if a.tier == 'thorough' else 420)
    t0 = real_time()
    import tempfile
    tmp = tempfile.mkdtemp(prefix='dst-%s-' % a.prop)
    procs = []
    try:
        for w in range(a.workers):
            out = os.path.join(tmp, 'w%d.json' % w)
            procs.append((out, spawn(['--mode', 'worker', a.prop, '--tier', a.tier, '--seed', a.seed, '--runs', str(runs), '--repo', a.repo,
                                      '--start', str(w), '--step', str(a.workers), '--deadline', str(deadline), '--out', out])))
        results, errors = [], []
        for out, p in procs:
            rc = p.wait()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                errors.append('a worker ended with status %s' % rc)
        errors += [r['error'] for r in results if r['error']]
        return conclude(a, sp, runs, results, errors, t0, tmp)
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def conclude(a, sp, runs, results, errors, t0, tmp):
    vios = sorted([r['violation'] for r in results if r['violation']], key=lambda v: v['run'])
    known = {}
    for r in results:
        known.update(r['known'])
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[k]))
    done = sum(r['runs'] for r in results)
    wall_search = real_time() - t0
    code = 0
    if vios:
        v = vios[0]
        code = 1
        job = os.path.join(tmp, 'job.json')
        with open(job, 'w') as f:
            json.dump(dict(v, seed=a.seed), f)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-seed%s-run%d.json' % (a.prop, a.seed, v['run']))
        p = spawn(['--mode', 'minimise', a.prop, '--repo', a.repo, '--job', job, '--out', path, '--budget', str(a.budget)])
        p.wait()
        text = '%s: %s' % (v['kind'], v['msg'])
        if os.path.exists(path):
            with open(path) as f:
                rec = json.load(f)
            text = rec['violation']
            print('run %d of seed %s, minimised with %d runs%s' % (v['run'], a.seed, rec['minimiser_runs'], '' if rec['reproduced'] else ' (not reproduced alone)'))
        print(text)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    elif errors:
        code = 2
    for e in errors[:3]:
        print('ERROR of the check: %s' % e, file=sys.stderr)
    wall = real_time() - t0
    faults = collections.Counter()
    for r in results:
        faults.update(r['faults'])

    def union(k):
        s = set()
        for r in results:
            s.update(r[k])
        return len(s)
    sim = sum(r['sim_time'] for r in results)
    cov = dict(
        evaluations=sum(r['cases'] for r in results),
        distinct_nontrivial=union('nontrivial'),
        rule=sp['rule'] + ' A run counts once, by the digest of its complete event history, and only if at least one oracle was evaluated in it.',
        samples=[s for r in results for s in r['samples']],
        simulated_runs=done, runs_planned=runs, cut_by_deadline=any(r['cut'] for r in results),
        runs_per_hour=int(done / max(wall_search, 1e-6) * 3600),
        simulated_seconds=round(sim, 3),
        faults_injected=dict(sorted(faults.items())),
        distinct_stored_states=union('states'),
        distinct_orders=union('orders'),
        order_measure=sp.get('orders', 'not measured for this property'),
        replayed_runs=sum(r['replayed'] for r in results), replay_mismatches=sum(r['replay_mismatch'] for r in results),
        real_components=sp['real'], simulated_components=sp['stub'])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(a.seed) if str(a.seed).lstrip('-').isdigit() else 0,
              level=sp['level'], coverage=cov, assumptions=sp['assumes'], wall_s=round(wall, 2), violations=len(vios))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % a.prop), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d simulated runs, %d checks, %d distinct, %d fault injections, %.0f s simulated, %.1f s%s' % (
        a.prop, done, cov['evaluations'], cov['distinct_nontrivial'], sum(faults.values()), sim, wall, ', replay mismatches: %d' % cov['replay_mismatches'] if cov['replay_mismatches'] else ''))
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    sys.exit(main())
