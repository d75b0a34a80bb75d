"""C08: a batch of functions is one transaction, and everything works inside it as outside."""
import random

from sim import core
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, agree, check_model, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.scen_crash import Stage
from sim.scen_failure import gen_failure, inject, lift, finish
from sim.scen_concurrent import locked
from sim.values import POISON, lst

TWIN = '/twin/gb.db'


class Boom(BaseException):
    """An error that is no Exception."""


# what the functions of a batch return means nothing
RETURNED = (None, False, 0, True, '', (), 7, 'x', StopIteration, ValueError('returned'))
ERRORS = {'ValueError': ValueError, 'KeyError': KeyError, 'KeyboardInterrupt': KeyboardInterrupt, 'Boom': Boom, 'GeneratorExit': GeneratorExit,
          'SystemExit': SystemExit, 'StopIteration': StopIteration}


def gen(rng, prop, tier, i):
    x = rng.random()
    if x < 0.1:
        from sim import scen_concurrent
        plan = scen_concurrent.gen(rng, 'C08', tier, i)
        for c in plan['clients']:
            c['ops'] = [op if op[0] == 'batch' or rng.random() < 0.4 or op[0] in ('rmpat',) else ['batch', [op, ['exists', ['a/1', 'b/1']]]] for op in c['ops']]
        return plan
    heavy = rng.random() < 0.1
    pool = pool_for(rng, heavy=heavy, nedges=rng.randint(2, 6))
    g = Gen(rng, pool)
    prefix = g.history(rng.choice((0, 1, 3, 6, 10)), reads=0)
    funs = g.funs(n=rng.choice((1, 2, 3, 5, 8)), reads=rng.choice((0.1, 0.4, 0.6)))
    if rng.random() < 0.2:
        at = rng.randrange(len(funs) + 1)
        funs[at:at] = g.watch()
    if rng.random() < 0.008:
        # a long batch
        funs += [['add', ['n/%d' % (k % 9), k], k] for k in range(rng.choice((70, 130, 300, 600, 1100)))]
        prefix = prefix[:2]
    after = g.history(rng.choice((0, 1, 3)), reads=0.3)
    handled = rng.random() < 0.3
    plan = dict(type='batch', handled=handled, prefix=prefix, ops=funs, after=after, raise_at=None, error=rng.choice(sorted(ERRORS)), faults=[], crashes=[],
                peek=rng.random() < 0.7, through=rng.choice(('hg', 'backend')), warm=rng.random() < 0.3, same=rng.random() < 0.2, returned=rng.random() < 0.3)
    if rng.random() < 0.4:
        plan['raise_at'] = round(rng.random(), 3)
    if rng.random() < (0.6 if handled else 0.3):
        plan['faults'] = [gen_failure(rng) for _ in range(3)]
    if rng.random() < 0.3:
        plan['crashes'] = [[round(rng.random(), 3), rng.choice(('kill', 'power', 'power_none'))] for _ in range(3)]
    if len(funs) > 250:
        plan['faults'], plan['crashes'], plan['peek'] = plan['faults'][:1], plan['crashes'][:1], False
    return plan


def run(plan, ctx, prop):
    if plan['type'] == 'concurrent':
        from sim import scen_concurrent
        return scen_concurrent.run(plan, ctx, prop)
    src = core.source_symbol()
    funs = plan['ops']
    batch = ['batch', funs]
    probe = ['add', ['probe/1', 'again/1', 'x'], 77]
    more = [['beliefm', 'mary/1', [['a/1', 'b/1', 'x']], 9]] if plan.get('handled') else []
    voc = core.Vocab(plan['prefix'] + funs + plan['after'] + [probe] + more, src)
    st = Stage(ctx, plan['prefix'], ['exists', ['a', 'b']], voc, plan['warm'])
    disk = st.disk

    # the same operations outside of a batch, on a twin
    twin_disk = WORLD.disk('twin')
    twin_disk.load({p.replace('/main/', '/twin/'): d for p, d in st.snap.items()})
    try:
        twin = core.new_hg(TWIN)
        outside = []
        for f in funs:
            outside.append(run_op(twin, f[1] if f[0] == 'hg' else f))
        core.close_hg(twin)
        twin = core.new_hg(TWIN)
        expected = observe(twin, voc)
        core.close_hg(twin)
    except Exception as e:
        raise Violation('exception', 'outside of a batch, %s raised %r' % ('; '.join(show_op(f) for f in funs), e))

    # inside
    hg = st.open()
    other = core.new_hg()
    raise_at = None if plan['raise_at'] is None else min(int(plan['raise_at'] * (len(funs) + 1)), len(funs))
    results, calls, seen_outside = [], [0], []
    returned = RETURNED if plan.get('returned') else (None,)
    error = ERRORS[plan['error']]('planned')

    def make(i, f):
        def fun(backend):
            if calls[0] != i:
                raise Violation('order', 'function %d of the batch was called as number %d' % (i, calls[0]))
            calls[0] += 1
            if plan['peek']:
                try:
                    now = [other.exists(e) for e in voc.edges]
                except Exception as e:
                    if not locked(e):
                        raise Violation('exception', 'a read of another client during a batch raised %r' % e)
                    now = None
                if now is not None and now != st.before['exists']:
                    raise Violation('visible-early', 'before function %d of the batch, another connection sees its effects' % i)
            if raise_at == i:
                raise error
            if f[0] == 'hg':
                results.append(run_op(hg, f[1], hg))
            else:
                results.append(run_op(backend, f, hg))
            return returned[(i + len(funs)) % len(returned)]
        return fun
    if plan.get('same'):
        # the same function several times
        def dispatch(backend):
            i = calls[0]
            if i >= len(funs):
                raise Violation('order', 'the function was called %d times, it is in the batch %d times' % (i + 1, len(funs)))
            return each[i](backend)
        each = [make(i, f) for i, f in enumerate(funs)]
        fs = [dispatch] * len(funs)
    else:
        fs = [make(i, f) for i, f in enumerate(funs)]
    if raise_at == len(funs):
        def last(b):
            raise error
        fs.append(last)
    raised = None
    target = hg if plan['through'] == 'hg' else hg.backend
    ctx.cases += 1
    text = '; '.join(show_op(f) for f in funs)
    passed = fs[:] if len(fs) % 2 else tuple(fs)
    try:
        target.batch_exec(passed)
    except Violation:
        raise
    except BaseException as e:
        if type(e).__name__ == 'Hang':
            raise
        raised = e
    ctx.log('batch', text, raise_at, type(raised).__name__)
    if list(passed) != fs:
        raise Violation('argument', 'batch_exec changed the list of functions that it was given')
    if raise_at is None:
        if raised is not None:
            raise Violation('exception', 'in a batch, %s raised %r' % (text, raised))
        if calls[0] != len(funs):
            raise Violation('skipped', 'only %d of %d functions were called' % (calls[0], len(funs)))
        want = expected
    else:
        ctx.fault('function_raises')
        if raised is not error:
            raise Violation('not-propagated', 'function %d raised %r, batch_exec raised %r' % (raise_at, error, raised))
        want = st.before
    try:
        mine = observe(hg, voc)
        theirs = observe(other, voc)
    except Exception as e:
        raise Violation('unusable', 'after a batch, reading raised %r' % e)
    if mine != want:
        raise Violation('effects', '%s in a batch%s: %s' % (text, ' that raised' if raised else '', obs_diff(want, mine, voc, 'expected', 'found')))
    if theirs != want:
        raise Violation('invisible', '%s in a batch%s, seen by another connection: %s' % (text, ' that raised' if raised else '', obs_diff(want, theirs, voc, 'expected', 'found')))
    # every function saw the effects of those before
    for f, a, b in zip(funs, outside, results):
        bad = differ(f[1] if f[0] == 'hg' else f, a, b)
        if bad:
            raise Violation('result', 'inside a batch %s gave %s, outside %s' % (show_op(f), str(b)[:200], str(a)[:200]))
    core.close_hg(other)
    m = st.model.copy()
    if raised is None:
        for f in funs:
            model_op(m, f)
    finish(ctx, st, hg, m, plan['after'] + [probe], voc, 'a batch (%s%s)' % (text, ', raised' if raised else ''))

    # failures and crashes inside the batch
    if not plan['faults'] and not plan['crashes']:
        return
    st2 = st
    st2.op = batch
    hg = st2.open()
    disk.reset_calls()
    core.INT.start_count()
    try:
        run_op(hg, batch)
    except Exception as e:
        core.INT.disarm()
        raise Violation('exception', 'in a batch, %s raised %r' % (text, e))
    st2.boundaries = core.INT.disarm()
    from sim.scen_crash import calls as ncalls
    st2.counts = {c: ncalls(disk, c) for c in ('any', 'mut', 'open', 'read', 'write', 'sync', 'truncate', 'delete', 'lock')}
    core.close_hg(hg)
    st2.after = expected
    for f in plan['faults']:
        if plan['handled']:
            handled(plan, ctx, st2, voc, f, twin_disk)
            continue
        hg = st2.open()
        inject(st2, f)
        raised = None
        try:
            run_op(hg, batch)
        except (Exception, KeyboardInterrupt) as e:
            raised = e
        fired = lift(st2)
        ctx.cases += 1
        what = 'fault %s in a batch of %s' % ({k: v for k, v in f.items() if v is not None}, text)
        ctx.log(what, fired, type(raised).__name__)
        judge(st2, hg, raised, fired, what)
        m = st.model.copy()
        if st2.classify(observe(hg, voc)) == 'after':
            model_op(m, batch)
        finish(ctx, st2, hg, m, plan['after'] + [probe], voc, what)
    rng = random.Random('power-%s' % plan['seed'])
    for frac, mode in plan['crashes']:
        n = max(st2.counts['mut'], 1)
        hg = st2.open()
        disk.set_fault(dict(kind='crash', call='mut', nth=min(int(frac * n), n - 1)))
        raised = None
        try:
            run_op(hg, batch)
        except Exception as e:
            raised = e
        dead = disk.dead
        disk.set_fault(None)
        disk.crash(mode, rng)
        core.close_hg(hg)
        ctx.cases += 1
        hg = core.new_hg()
        obs = observe(hg, voc)
        core.close_hg(hg)
        what = st2.classify(obs)
        ctx.log('crash', frac, mode, what)
        if what is None or (raised is None and not dead and what != 'after'):
            raise Violation('partial', 'a %s crash in a batch of %s leaves %s' % (mode, text, st2.neither(obs)))


def handled(plan, ctx, st, voc, fault, twin_disk):
    """The functions of the batch handle the errors of their operations: what succeeded counts, if the batch succeeds."""
    hg = st.open()
    funs = list(plan['ops'])
    bad = random.Random('poison-%s' % plan['seed'])
    if bad.random() < 0.5:
        # an operation that fails whatever the storage does
        e = [['a/1', 'b/1', 'x'], ['b/1', 'a/1', bad.choice(POISON)]]
        funs.insert(bad.randrange(len(funs) + 1), bad.choice((['addm', e, 9], ['add', e[1], 9], ['beliefm', 'mary/1', e, 9], ['batch', [['add', e[0], 9], ['add', e[1], 9]]])))
    if bad.random() < 0.7:
        inject(st, fault)
    good, failed = [], []

    def make(f):
        def fun(backend):
            try:
                if f[0] == 'hg':
                    run_op(hg, f[1], hg)
                else:
                    run_op(backend, f, hg)
                good.append(f)
            except (Exception, KeyboardInterrupt) as e:
                failed.append((f, repr(e)))
        return fun
    raised = None
    try:
        hg.batch_exec([make(f) for f in funs])
    except (Exception, KeyboardInterrupt) as e:
        raised = e
    fired = lift(st)
    ctx.cases += 1
    ctx.fault('errors_handled_in_batch', len(failed))
    text = '; '.join(show_op(f) for f in funs)
    what = 'a batch of %s, in which %s failed and was handled (%s)' % (text, [show_op(f) for f, e in failed], {k: v for k, v in fault.items() if v is not None} if fired else 'no fault')
    ctx.log('handled', [show_op(f) for f, e in failed], fired, type(raised).__name__)
    twin_disk.load({p.replace('/main/', '/twin/'): d for p, d in st.snap.items()})
    twin = core.new_hg(TWIN)
    for f in good:
        run_op(twin, f[1] if f[0] == 'hg' else f)
    core.close_hg(twin)
    twin = core.new_hg(TWIN)
    want = observe(twin, voc)
    core.close_hg(twin)
    try:
        obs = observe(hg, voc)
        new = core.new_hg()
        theirs = observe(new, voc)
        core.close_hg(new)
    except Exception as e:
        raise Violation('unusable', '%s: reading afterwards raised %r' % (what, e))
    if raised is None:
        if obs != want or theirs != want:
            raise Violation('handled', '%s: %s' % (what, obs_diff(want, obs if obs != want else theirs, voc, 'expected', 'found')))
    else:
        if not fired:
            raise Violation('exception', '%s raised %r' % (what, raised))
        if obs not in (st.before, want) or theirs != obs:
            raise Violation('partial', '%s raised %r: neither nothing nor all: %s' % (what, raised, obs_diff(st.before, obs, voc, 'before', 'found')))
    m = st.model.copy()
    if obs != st.before:
        for f in good:
            model_op(m, f)
    finish(ctx, st, hg, m, plan['after'] + [['add', ['probe/1', 'again/1', 'x'], 77]], voc, what)


def judge(st, hg, raised, fired, what):
    if raised is not None and not fired:
        raise Violation('exception', '%s raised %r although nothing was injected' % (what, raised))
    try:
        obs = observe(hg, st.voc)
    except Exception as e:
        raise Violation('unusable', '%s: reading afterwards raised %r' % (what, e))
    cls = st.classify(obs)
    if cls is None:
        raise Violation('partial', '%s raised %r: %s' % (what, raised, st.neither(obs)))
    if raised is None and cls != 'after':
        raise Violation('swallowed', '%s returned normally without its effects' % what)


def differ(op, a, b):
    if op[0] == 'batch':
        return any(differ(s[1] if s[0] == 'hg' else s, x, y) for s, x, y in zip(op[1], a, b))
    if op[0] in ('pat', 'star', 'roots', 'sources'):
        return core.canon_set(a) != core.canon_set(b)
    if op[0] == 'all':
        return sorted((core.pykey2(v), d) for v, d in a) != sorted((core.pykey2(v), d) for v, d in b)
    return a != b
