"""Several clients of one SQLite file under the deterministic scheduler; linearizability and other concurrent checks.

Used by C09, and as a part of C03, C08, C10, C11, C19."""
import random
import sqlite3

from sim import core, lin
from sim.core import Violation, run_op, model_op, planned_raise, show_op, WORLD, check_model
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.sched import Scheduler
from sim.values import key, lst, is_edge


def gen(rng, prop, tier, i):
    pool = pool_for(rng, nasty=rng.random() < 0.2, nedges=rng.randint(1, 4), nsym=rng.randint(2, 4), maxlen=3, numbers=rng.random() < 0.2)
    writes = reads = None
    if prop == 'C11':
        writes = ('belief', 'beliefm', 'unbelief')
        reads = ('sources', 'exists', 'pat')
    if prop == 'C03':
        writes = ('add', 'addm', 'rm', 'rmm', 'destroy', 'belief', 'unbelief', 'rmpat')
        reads = ('deg', 'exists')
    if prop == 'C19':
        reads = ('all', 'all', 'exists')
    g = Gen(rng, pool, writes=writes, reads=reads)
    prefix = g.history(rng.choice((0, 1, 3, 6)), reads=0)
    if prop in ('C09', 'C19', 'C08') and rng.random() < 0.12:
        return gen_wide(rng, g, prop, prefix)
    nc = rng.choice((2, 2, 2, 3, 3, 4))
    p_read = rng.choice((0.1, 0.4, 0.7))
    if prop == 'C19':
        p_read = 0.5
    clients = []
    same = rng.random() < 0.35
    for c in range(nc):
        ops = g.history(rng.choice((1, 2, 3, 4)) if nc > 2 else rng.choice((1, 2, 3, 4, 5)), reads=p_read)
        if same and clients:
            # everybody starts with (nearly) the same write
            first = clients[0]['ops'][0]
            if core.writes(first):
                ops[0] = first
        clients.append(dict(ops=ops))
    if prop == 'C19' and not any(op[0] == 'all' for c in clients for op in c['ops']):
        clients[0]['ops'].append(['all'])
    plan = dict(type='concurrent', prefix=prefix, clients=clients, choices=None, stall=rng.choice((0, 0, 0.01, 0.05)), dt=rng.choice((0.0001, 0.002)),
                sticky=rng.choice((0.0, 0.3, 0.6, 0.9)), crash=None, faults=[])
    x = rng.random()
    if x < 0.25:
        plan['crash'] = dict(step=rng.choice((rng.randrange(1, 20), rng.randrange(1, 120))), mode=rng.choice(('kill', 'power', 'power_none')))
    elif x < 0.4:
        plan['faults'] = [dict(kind='error', call=rng.choice(('any', 'mut', 'write', 'sync', 'read')), nth=rng.randrange(80), count=rng.choice((1, 1, 4)))]
    return plan


def gen_wide(rng, g, prop, prefix):
    """Results of many rows, and writers that change many of them at once."""
    n = rng.choice((9, 14, 20, 35, 70))
    es = [['hub/1', 'w/%d' % i] + (['v/%d' % (i % 2)] if n < 30 and i % 3 else []) for i in range(n)]
    rng.shuffle(es)
    have = es[:rng.choice((n, n, n // 2, n - 2))]
    prefix = prefix[:2] + [['addm', have, 5]]

    def part():
        return rng.sample(es, rng.choice((2, 2, 3, n // 2, n)))

    def write():
        x = rng.random()
        if x < 0.35:
            return ['rmm', part()]
        if x < 0.65:
            return ['addm', part(), rng.choice((-1, 7))]
        if x < 0.75:
            return ['rmpat', rng.choice((['hub/1', None], ['hub/1', None, None], ['hub/1', None, 'v/0']))]
        if x < 0.8:
            return ['destroy']
        if x < 0.9:
            return ['batch', [['rm', e] for e in part()[:3]] + [['add', e, 9] for e in part()[:3]]]
        return g.write()

    def read():
        x = rng.random()
        if x < 0.4:
            return ['star', 'hub/1']
        if x < 0.5:
            return ['star', 'v/0']
        if x < 0.75:
            return ['pat', rng.choice((['hub/1', None], ['hub/1', None, None], [None, None], [None, None, 'v/1']))]
        if x < 0.85:
            return ['roots', rng.choice(('w', 'v', 'hub'))]
        if x < 0.95:
            return ['all']
        return ['deg', 'hub/1']
    clients = [dict(ops=[read() if rng.random() < 0.7 else write() for _ in range(rng.choice((1, 2, 3)))]),
               dict(ops=[write() if rng.random() < 0.7 else read() for _ in range(rng.choice((1, 2, 3)))])]
    if rng.random() < 0.3:
        clients.append(dict(ops=[write() if rng.random() < 0.5 else read() for _ in range(rng.choice((1, 2)))]))
    if prop == 'C19' and not any(op[0] == 'all' for c in clients for op in c['ops']):
        clients[0]['ops'].append(['all'])
    if prop == 'C08' and not any(op[0] == 'batch' for c in clients for op in c['ops']):
        clients[1]['ops'].append(['batch', [['rmm', part()], ['addm', part(), 3]]])
    return dict(type='concurrent', prefix=prefix, clients=clients, choices=None, stall=0, dt=rng.choice((0.0001, 0.002)), sticky=rng.choice((0.0, 0.3, 0.6)), crash=None, faults=[])


def locked(e):
    return isinstance(e, sqlite3.OperationalError) and ('locked' in str(e) or 'busy' in str(e))


def all_ops(plan):
    for op in plan['prefix']:
        yield op
    for c in plan['clients']:
        for op in c['ops']:
            yield op


def run(plan, ctx, prop):
    src = core.source_symbol()
    voc = core.Vocab(all_ops(plan), src)
    disk = WORLD.disk('main')
    m = Model(src)
    try:
        hg = core.new_hg()
        for op in plan['prefix']:
            try:
                run_op(hg, op)
            except core.Planned:
                pass
            model_op(m, op)
        hgs = [core.new_hg() for _ in plan['clients']]
    except Exception as e:
        raise Violation('exception', 'before the concurrent part: %r' % e)
    core.close_hg(hg)
    rng = random.Random('sched-%s' % plan['seed'])
    history = []
    lock_errors = []

    def die():
        disk.dead = True
        ctx.fault('crash_concurrent_%s' % plan['crash']['mode'])

    s = Scheduler(ctx, rng, plan['choices'], stall=plan['stall'], dt=plan['dt'], sticky=plan['sticky'],
                  crash_step=plan['crash']['step'] if plan['crash'] else None, on_crash=die)
    ctx.sched = s
    faults = plan['faults']
    if faults:
        disk.set_fault(faults[0])

    def body(i):
        hg = hgs[i]
        for op in plan['clients'][i]['ops']:
            s.pause()
            if s.killed:
                return
            e = lin.Entry(i, op, s.tick())
            history.append(e)
            t0 = WORLD.now
            try:
                if op[0] == 'all':
                    res = []
                    for x in hg.f_all(lambda v: (v['vertex'], v['degree'])):
                        res.append(x)
                        s.pause()
                elif op[0] == 'batch':
                    res = run_op(hg, op, between=lambda k: s.pause())
                else:
                    res = run_op(hg, op)
            except Exception as x:
                if s.killed or disk.dead:
                    return
                e.ret = s.tick()
                ctx.log('raised', i, show_op(op), str(x))
                if locked(x):
                    lock_errors.append((show_op(op), WORLD.now - t0))
                    history.remove(e)
                    if not s.stalled and not disk.faulted:
                        raise Violation('lock-error', '%s of client %d raised %r although no client was ever stalled' % (show_op(op), i, x))
                    continue
                if isinstance(x, core.Planned) or planned_raise(op):
                    history.remove(e)
                    continue
                if not disk.faulted:
                    raise Violation('exception', '%s of client %d raised %r' % (show_op(op), i, x))
                continue
            if s.killed or disk.dead:
                return
            e.ret = s.tick()
            e.res = res
            e.kind = lin.OK
            ctx.log('done', i, show_op(op), scen_summary(res))

    try:
        s.run([body] * len(plan['clients']))
    finally:
        ctx.order([ev for ev in ctx.events if ev[0] in ('run',)])
        ctx.preempt = s.preemptions
    if plan['crash'] and s.killed:
        disk.crash(plan['crash']['mode'], rng)
    disk.set_fault(None)
    for h in hgs:
        core.close_hg(h)
    try:
        fresh = core.new_hg()
    except Exception as e:
        raise Violation('exception', 'reopening afterwards raised %r' % e)
    ctx.cases += 1
    if prop == 'C11':
        beliefs_consistent(fresh, voc, src, plan)
    if prop == 'C03':
        degrees_consistent(fresh, voc)
    # all results and the final contents are those of some sequential order
    reads = [['pat', [None] * n] for n in sorted(voc.lengths)] + [['deg', lst(v)] for v in voc.entities] \
        + [['ts', lst(v)] for v in voc.entities] + [['all']]
    if prop == 'C03':
        reads = [r for r in reads if r[0] != 'ts']
    if prop == 'C11':
        reads = [['pat', [None] * n] for n in sorted(voc.lengths)]
    try:
        got = [(r, run_op(fresh, r)) for r in reads]
    except Exception as e:
        raise Violation('exception', 'reading the final contents raised %r' % e)

    def final(mm):
        for r, g in got:
            bad = core.agree(r, g, model_op(mm, r))
            if bad:
                return bad
        return None
    if prop == 'C03':
        for e in history:
            if e.op[0] not in ('exists', 'deg'):
                e.res = None if e.op[0] != 'batch' else e.res
    ok, why = lin.search(history, m, final)
    if ok is None:
        ctx.fault('linearization_search_limit')
    elif not ok:
        raise Violation('not-linearizable', 'no sequential order of %s explains the results and the final contents; closest: %s' % (
            '; '.join('c%d %s' % (e.client, show_op(e.op)) for e in history), why))
    else:
        ctx.order('linearization', [show_op(history[i].op) for i in ok and why])
    ctx.state(got)
    bad = None
    # still usable
    probe = ('probe/1', 'still/1', 'usable/1')
    try:
        fresh.add(probe)
        if not fresh.exists(probe):
            bad = 'an edge added afterwards does not exist'
    except Exception as e:
        bad = 'adding an edge afterwards raised %r' % e
    if bad:
        raise Violation('unusable', bad)


def scen_summary(res):
    if isinstance(res, list):
        return sorted(repr(g) for g in res)[:6]
    return repr(res)


def degrees_consistent(hg, voc):
    """Degree = occurrences in the edges that exist, all taken from the code."""
    edges = [e for e in voc.edges if hg.exists(e)]
    count = {}
    for e in edges:
        for v in e:
            count[key(v)] = count.get(key(v), 0) + 1
    for v in voc.entities:
        if hg.degree(v) != count.get(key(v), 0):
            raise Violation('degree', 'degree of %s is %r, but it occurs %d times in existing edges' % (core.show(v), hg.degree(v), count.get(key(v), 0)))


def beliefs_consistent(hg, voc, src, plan):
    """No source attached to a missing fact, no fact (of those only ever asserted as beliefs) without a source."""
    for e in voc.edges:
        links = hg.pattern2edges((src, e, None))
        if links and not hg.exists(e):
            raise Violation('dangling-source', '%s does not exist but has sources %s' % (core.show(e), core.brief([x[2] for x in links])))
    facts = set()
    for op in all_ops(plan):
        for f in belief_facts(op):
            facts.add(key(f))
    for e in voc.edges:
        if key(e) in facts and hg.exists(e) and not hg.pattern2edges((src, e, None)):
            raise Violation('fact-without-source', '%s exists without any source' % core.show(e))


def belief_facts(op):
    from sim.values import tup
    if op[0] == 'hg':
        op = op[1]
    if op[0] == 'belief':
        yield tup(op[2])
    elif op[0] == 'beliefm':
        for e in op[2]:
            yield tup(e)
    elif op[0] == 'batch':
        for s in op[1]:
            for f in belief_facts(s):
                yield f


def prepare_minimise(plan, ctx):
    """Turns the schedule into an explicit list, so that it can be shortened."""
    s = getattr(ctx, 'sched', None)
    if s is not None and plan.get('choices') is None and plan.get('type') == 'concurrent':
        plan['choices'] = s.record
    return plan


def simplify(plan):
    if plan.get('type') != 'concurrent':
        return
    import copy
    if plan.get('stall'):
        p = copy.deepcopy(plan)
        p['stall'] = 0
        yield p
    if plan.get('choices'):
        p = copy.deepcopy(plan)
        p['choices'] = [[c, 0.0005, st] for c, dt, st in p['choices']]
        yield p
        p = copy.deepcopy(p)
        p['choices'] = [[c, 0.0005, 0] for c, dt, st in p['choices']]
        yield p
