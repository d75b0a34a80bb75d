"""C07: an operation that fails leaves all or nothing of its effects, and the hypergraph stays usable."""
import random
import sqlite3

from sim import core, vfs
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, check_model, WORLD
from sim.gen import Gen, pool_for, big_op
from sim.model import Model
from sim.scen_crash import Stage, run_any, model_any, flat_any, show_any, bulk_op
from sim.values import POISON, lst, tup

ASPECTS = ('exists', 'content', 'degree', 'ts')


def gen_failure(rng):
    k = rng.choice(('ioerr', 'ioerr', 'ioerr', 'short', 'full', 'busy', 'extlock', 'interrupt', 'interrupt', 'memory', 'nomem', 'refused', 'refused'))
    frac = round(rng.random(), 4) if rng.random() < 0.7 else rng.choice((0.0, 0.999))
    if k == 'ioerr':
        return dict(kind='error', call=rng.choice(('any', 'any', 'mut', 'write', 'sync', 'read', 'delete', 'truncate', 'open')), frac=frac, count=rng.choice((1, 1, 2, 5, None)))
    if k == 'short':
        return dict(kind='short', call='write', frac=frac, count=rng.choice((1, None)))
    if k == 'full':
        return dict(kind='error', call='write', frac=frac, count=rng.choice((1, None)), code=vfs.FULL)
    if k == 'busy':
        return dict(kind='error', call='lock', frac=frac, count=None, code=vfs.BUSY)
    if k == 'extlock':
        return dict(kind='extlock', level=rng.choice((vfs.SHARED, vfs.RESERVED, vfs.EXCLUSIVE)), seconds=rng.choice((6.0, 20.0, 1000.0)))
    if k == 'nomem':
        return dict(kind='error', call='any', frac=frac, count=1, code=7)
    if rng.random() < 0.3:
        frac = -rng.choice((1, 2, 3, 4, 5, 6, 7, 9, 12))   # counted from the end
    return dict(kind='interrupt', frac=frac, exc={'memory': 'MemoryError', 'interrupt': 'KeyboardInterrupt', 'refused': 'refused'}[k])


def poison(rng, g, pool):
    """An operation that contains something that cannot be stored."""
    bad_edge = list(pool.edge())
    bad_edge[rng.randrange(len(bad_edge))] = rng.choice(POISON)
    if rng.random() < 0.3:
        bad_edge = [bad_edge[0], [bad_edge[1], rng.choice(POISON)], 'x']
    bad_edge = lst(bad_edge)
    ts = g.ts()
    if rng.random() < 0.3:
        # a time stamp that does not fit; needs a vertex that is not there yet
        bad_edge = ['fresh/%d' % rng.randrange(10 ** 6), 'a/1', 'b/1']
        ts = rng.choice((2 ** 63, -2 ** 63 - 1, 2 ** 70))
    x = rng.random()
    if x < 0.25:
        return ['add', bad_edge, ts]
    if x < 0.55:
        es = g.edges()
        es.insert(rng.randrange(len(es) + 1), bad_edge)
        return ['addm', es, ts]
    if x < 0.65:
        return ['belief', rng.choice(g.sources), bad_edge, ts]
    if x < 0.8:
        es = g.edges()
        es.insert(rng.randrange(len(es) + 1), bad_edge)
        return ['beliefm', rng.choice(g.sources), es, ts]
    funs = g.funs(n=rng.choice((1, 2, 3)))
    funs.insert(rng.randrange(len(funs) + 1), ['add', bad_edge, ts])
    return ['batch', funs]


def gen(rng, prop, tier, i):
    heavy = rng.random() < 0.1
    pool = pool_for(rng, heavy=heavy, nedges=rng.randint(2, 6))
    g = Gen(rng, pool)
    prefix = g.history(rng.choice((0, 1, 3, 6)), reads=0)
    after = g.history(rng.choice((1, 2, 4)), reads=0.4)
    if rng.random() < 0.25:
        bads = [poison(rng, g, pool) for _ in range(rng.choice((1, 2, 3)))]
        return dict(type='poison', prefix=prefix, ops=bads, after=after, warm=rng.random() < 0.5)
    if rng.random() < 0.25:
        # an operation of a batch function that raises (the function's own error)
        pass
    op = g.read() if rng.random() < 0.15 else g.write()
    if rng.random() < 0.015:
        more, op = big_op(rng)
        prefix += more
    k = 5 if tier == 'quick' else 16
    faults = [gen_failure(rng) for _ in range(k)]
    if rng.random() < 0.06:
        # one kind of failure at each of the last boundaries
        exc = rng.choice(('refused', 'refused', 'KeyboardInterrupt'))
        faults = [dict(kind='interrupt', frac=-j, exc=exc) for j in range(1, 25)]
    return dict(type='faults', prefix=prefix, op=op, faults=faults, after=after, warm=rng.random() < 0.5, again=rng.random() < 0.5,
                observe_same=rng.random() < 0.6)


def inject(st, f):
    disk = st.disk
    if f['kind'] == 'extlock':
        core.external_lock(disk, f['level'], f['seconds'])
        return
    if f['kind'] == 'interrupt':
        n = st.boundaries
        core.INT.arm(max(n + f['frac'], 0) if f['frac'] < 0 else min(int(f['frac'] * n), max(n - 1, 0)), f['exc'])
        return
    call = f['call']
    n = st.counts.get(call, 0)
    if n == 0:
        call, n = 'any', st.counts['any']
        if f['kind'] == 'short':
            call, n = 'write', 1
    disk.set_fault(dict(kind=f['kind'], call=call, nth=min(int(f['frac'] * n), max(n - 1, 0)), count=f['count'], code=f.get('code')))


def lift(st):
    core.INT.disarm()
    fired = core.INT.fired > 0 or st.disk.faulted
    if core.INT.fired:
        st.ctx.fault(core.INT.kind)
    core.INT.fired = 0
    st.disk.busy_until = None
    st.disk.set_fault(None)
    return fired


def run(plan, ctx, prop):
    src = core.source_symbol()
    if plan['type'] == 'poison':
        return run_poison(plan, ctx)
    op = plan['op']
    probe = ['add', ['probe/1', 'again/1', 'x'], 77]
    voc = core.Vocab(list(flat_any(plan['prefix'] + [op] + plan['after'] + [probe])), src)
    st = Stage(ctx, plan['prefix'], op, voc, plan['warm'])
    for f in plan['faults']:
        hg = st.open()
        m = st.model.copy()
        failed_once = False
        for attempt in range(2 if plan['again'] else 1):
            inject(st, f)
            raised = None
            try:
                got = run_any(hg, op)
            except (Exception, KeyboardInterrupt) as e:
                raised = e
            fired = lift(st)
            ctx.cases += 1
            what = 'fault %s in %s' % ({k: v for k, v in f.items() if v is not None}, show_any(op))
            ctx.log(what, fired, type(raised).__name__, str(raised)[:80])
            if raised is not None and not fired:
                raise Violation('exception', '%s: raised %r although nothing was injected' % (what, raised))
            if raised is not None:
                failed_once = True
            try:
                if plan['observe_same']:
                    obs = observe(hg, voc)
                else:
                    other = core.new_hg()
                    obs = observe(other, voc)
                    core.close_hg(other)
            except Exception as e:
                raise Violation('unusable', '%s: reading afterwards raised %r' % (what, e))
            cls = st.classify(obs)
            if cls is None:
                raise Violation('partial', '%s raised %r: %s' % (what, raised, st.neither(obs)))
            if raised is None and cls != 'after':
                raise Violation('swallowed', '%s: it returned normally without its effects: %s' % (what, obs_diff(st.after, obs, voc, 'expected', 'found')))
            if cls == 'after' and st.before != st.after:
                break
        ctx.order(what, cls)
        if cls == 'after':
            model_any(m, op)
        finish(ctx, st, hg, m, plan['after'] + [probe], voc, what)
        if f['kind'] == 'extlock':
            WORLD.now += 1


def finish(ctx, st, hg, m, after, voc, what):
    """The same object keeps working: correct, visible to other connections, durable."""
    try:
        for o in after:
            try:
                got = run_op(hg, o)
            except core.Planned:
                got = None
            want = model_op(m, o)
            if not core.writes(o) and o[0] in ('exists', 'pat'):
                bad = core.agree(o, got, want)
                if bad:
                    raise Violation('wrong-later', 'after %s: %s' % (what, bad))
        bad = check_model(hg, m, voc, ('exists',))
        if bad:
            raise Violation('wrong-later', 'after %s, on the same connection: %s' % (what, bad))
        mine = observe(hg, voc, deep=False)
        other = core.new_hg()
        theirs = observe(other, voc, deep=False)
        core.close_hg(other)
        if mine != theirs:
            raise Violation('invisible', 'after %s, later operations are not visible to another connection: %s' % (what, obs_diff(mine, theirs, voc, 'same connection', 'other')))
        st.disk.crash('power_none', None)
        core.close_hg(hg)
        hg = core.new_hg()
        durable = observe(hg, voc, deep=False)
        core.close_hg(hg)
    except Violation:
        raise
    except Exception as e:
        raise Violation('unusable', 'after %s, later operations raised %r' % (what, e))
    if mine != durable:
        raise Violation('volatile', 'after %s, later operations are lost by a crash: %s' % (what, obs_diff(mine, durable, voc, 'live', 'recovered')))
    ctx.state(mine['length'])


def run_poison(plan, ctx):
    src = core.source_symbol()
    probe = ['add', ['probe/1', 'again/1', 'x'], 77]
    clean = [o for o in plan['prefix'] + plan['after'] + [probe]]
    voc = core.Vocab(list(flat_any(clean)), src)
    for bad_op in plan['ops']:
        for e in core.op_edges(bad_op, src):
            if not is_poison(e) and len(voc.edges) < 40:
                if e not in voc.edges:
                    voc.edges.append(e)
                for v in e:
                    if v not in voc.entities:
                        voc.entities.append(v)
    st = Stage(ctx, plan['prefix'], ['exists', ['a', 'b']], voc, plan['warm'])
    hg = st.open()
    for bad_op in plan['ops']:
        ctx.cases += 1
        ctx.fault('unstorable_element')
        raised = None
        try:
            run_op(hg, bad_op)
        except Exception as e:
            raised = e
        what = 'the unstorable element in %s' % ascii(show_op(bad_op))
        ctx.log(what, type(raised).__name__)
        if raised is None:
            raise Violation('swallowed', '%s raised no error' % what)
        try:
            obs = observe(hg, voc)
        except Exception as e:
            raise Violation('unusable', '%s: reading afterwards raised %r' % (what, e))
        if obs != st.before:
            raise Violation('partial', '%s raised %r, but %s' % (what, raised, obs_diff(st.before, obs, voc, 'before', 'now')))
    finish(ctx, st, hg, st.model.copy(), plan['after'] + [probe], voc, 'unstorable elements')


def is_poison(e):
    try:
        repr(e).encode('utf-8')
        core.show(e).encode('utf-8')
        return False
    except UnicodeEncodeError:
        return True
