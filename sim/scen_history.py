"""C01-C04: histories of one or several (alternating) clients with restarts, crashes and failing operations, against the
reference model.  An operation that failed or was cut by a crash leaves two candidate models: before and after."""
import random

from sim import core
from sim.core import Violation, run_op, model_op, agree, planned_raise, check_model, show_op, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.values import lst, key, is_edge
from sim.vfs import FULL, BUSY

ASPECTS = {'C01': ('exists', 'content'),
           'C02': ('content', 'pattern', 'star', 'roots'),
           'C03': ('content', 'degree', 'all'),
           'C04': ('content', 'ts'),
           'C11': ('exists', 'content', 'sources')}
READS = {'C01': ('exists', 'pat', 'sources'), 'C02': ('pat', 'star', 'roots', 'sources', 'exists'),
         'C03': ('deg', 'all', 'exists'), 'C04': ('ts', 'exists'), 'C11': ('sources', 'exists')}


def gen_fault(rng):
    k = rng.choice(('error', 'error', 'short', 'full', 'busy', 'crash', 'crash', 'interrupt'))
    nth = rng.choice((0, 1, 2, 3, 5, 8, rng.randrange(60), rng.randrange(30)))
    if k == 'error':
        return dict(kind='error', call=rng.choice(('any', 'mut', 'write', 'sync', 'read', 'delete', 'truncate', 'open')), nth=nth if rng.random() < 0.6 else rng.randrange(4),
                    count=rng.choice((1, 1, 3, None)))
    if k == 'short':
        return dict(kind='short', call='write', nth=nth, count=rng.choice((1, None)))
    if k == 'full':
        return dict(kind='error', call='write', nth=nth, count=None, code=FULL)
    if k == 'busy':
        return dict(kind='error', call='lock', nth=rng.randrange(4), count=None, code=BUSY)
    if k == 'interrupt':
        return dict(kind='interrupt', nth=rng.choice((0, 1, 2, 3, rng.randrange(80))), exc=rng.choice((None, 'refused')))
    return dict(kind='crash', call=rng.choice(('any', 'mut', 'mut', 'write', 'sync', 'delete')), nth=nth if rng.random() < 0.6 else rng.randrange(6), partial=rng.random() < 0.3,
                mode=rng.choice(('kill', 'power', 'power', 'power_none')))


def gen(rng, prop, tier, i):
    if prop == 'C03' and rng.random() < 0.25:
        from sim import scen_concurrent
        plan = scen_concurrent.gen(rng, prop, tier, i)
        plan['type'] = 'concurrent'
        return plan
    heavy = rng.random() < 0.15
    x = rng.random()
    if prop != 'C04' and x < 0.012:
        return long_edges(rng, prop, 7 if x < 0.002 else 6)
    if prop == 'C02' and x > 0.994:
        return many_edges(rng)
    big = 3 if tier == 'thorough' and rng.random() < 0.3 else 1
    pool = pool_for(rng, heavy=heavy, nedges=rng.randint(2, 9) * big, nsym=None)
    if prop == 'C02' and rng.random() < 0.5:
        prefix_cluster(rng, pool)
    g = Gen(rng, pool, reads=READS[prop])
    n = rng.choice((4, 8, 14, 25)) * big
    ops = []
    trouble = rng.choice((0, 0, 0.05, 0.15, 0.3))
    clients = rng.choice((1, 1, 1, 2, 3))
    history = g.history(n, reads=0.3)
    if rng.random() < 0.2:
        at = rng.randrange(len(history) + 1)
        history[at:at] = g.watch()
    for op in history:
        x = rng.random()
        if x < 0.05:
            ops.append(['reopen'])
        elif x < 0.08:
            ops.append(['crash', rng.choice(('kill', 'power', 'power_none'))])
        elif x < 0.11:
            ops.append(['check'])
        if core.writes(op) and rng.random() < trouble:
            ops.append(['fault', gen_fault(rng), op])
        elif op[0] == 'batch' and rng.random() < 0.2:
            op[1].insert(rng.randrange(len(op[1]) + 1), ['raise'])
            ops.append(op)
        else:
            ops.append(op)
        if clients > 1:
            ops.append(['use', rng.randrange(clients)])
    return dict(type='history', ops=ops, clients_n=clients)


def long_edges(rng, prop, n):
    """Few operations on edges with hundreds or thousands of permutations."""
    pool = pool_for(rng, nedges=1, maxlen=4)
    edges = []
    for _ in range(2 if n == 6 else 1):
        e = tuple(pool.entity() for _ in range(n))
        edges.append((rng.choice(pool.symbols),) + e[1:])
    pool.edges = edges + [edges[0][:2], edges[0][-3:]]
    pool.edges = [e if not is_edge(e[0]) else ('a',) + e[1:] for e in pool.edges]
    ops = [['add', lst(edges[0]), 5]]
    for e in edges[1:]:
        ops.append(['add', lst(e), 7])
    ops += [['add', lst(pool.edges[-1]), 9], ['star', lst(edges[0][-1])], ['exists', lst(edges[0])]]
    if n == 6:
        ops += [['check'], ['rm', lst(edges[0])], ['check']]
        if rng.random() < 0.5:
            ops.append(['add', lst(edges[0]), 11])
    elif rng.random() < 0.5:
        ops.append(['rm', lst(edges[0])])
    return dict(type='history', ops=ops, clients_n=1)


def many_edges(rng):
    """Queries with many results."""
    k = rng.choice((2, 3, 3))
    n = rng.choice((400, 700, 900, 1300)) if k == 3 else rng.choice((900, 2600))
    edges = [['r/1', 'x%d/%d' % (j % 400, j)] + ['c/%d' % (j % 2)] * (k - 2) for j in range(n)]
    fixed = [None] * (k - 2)
    ops = [['addm', edges, 5], ['pat', [None] * k], ['star', 'r/1'], ['pat', ['r/1', None] + fixed], ['rm', edges[n // 2]], ['pat', [None] * k], ['roots', 'x1'], ['star', 'c/1']]
    if rng.random() < 0.3:
        ops += [['rmpat', [None] * (k - 1) + [edges[0][-1]]], ['pat', [None] * k]]
    return dict(type='history', ops=ops, clients_n=1)


def prefix_cluster(rng, pool):
    """Entities whose textual forms are prefixes of one another."""
    base = rng.choice(('a', 'a/1', 'graph', 'x', '7', 'b/'))
    syms = [base, base + '0', base + '1', base + '/1', base + '1/1', base + '!', base + '~', base + '-', base + '.']
    syms = [s for s in syms if not is_number(s)]
    pool.symbols = rng.sample(syms, min(len(syms), rng.randint(3, 6)))
    pool.edges = []
    for _ in range(rng.randint(3, 8)):
        pool.edges.append(pool.new_edge())


def is_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def flat_ops(ops):
    for op in ops:
        if op[0] == 'fault':
            yield op[2]
        elif op[0] not in ('reopen', 'crash', 'check', 'use'):
            yield op


def run(plan, ctx, prop):
    if plan.get('type') == 'concurrent':
        from sim import scen_concurrent
        return scen_concurrent.run(plan, ctx, prop)
    src = core.source_symbol()
    voc = core.Vocab(flat_ops(plan['ops']), src)
    seen = voc.keys
    aspects = ASPECTS[prop]
    disk = WORLD.disk('main')
    hgs = {}
    cur = [0]
    models = [Model(src)]
    rng = random.Random('power-%s' % plan['seed'])

    def hg():
        if cur[0] not in hgs:
            try:
                hgs[cur[0]] = core.new_hg()
            except Exception as e:
                raise Violation('exception', 'opening raised %r' % e)
        return hgs[cur[0]]

    def drop():
        for h in hgs.values():
            core.close_hg(h)
        hgs.clear()

    def full(when, final=False):
        ctx.cases += 1
        if plan.get('beliefs_only'):
            from sim import scen_concurrent
            scen_concurrent.beliefs_consistent(hg(), voc, src, dict(prefix=list(flat_ops(plan['ops'])), clients=[]))
        good, why = [], None
        for m in models:
            bad = guarded(lambda: check_model(hg(), m, voc, aspects, seen, final), when)
            if bad is None:
                good.append(m)
            elif why is None or m is models[0]:
                why = bad
        if not good:
            raise Violation('mismatch', '%s: %s%s' % (when, why, '' if len(models) == 1 else ' (and no better as if the interrupted operations had (not) happened)'))
        models[:] = dedup(good)
        ctx.state(models[0].signature())

    def guarded(f, what):
        try:
            return f()
        except Violation:
            raise
        except Exception as e:
            raise Violation('exception', '%s raised %r' % (what, e))

    for op in plan['ops']:
        name = op[0]
        if name == 'use':
            cur[0] = op[1]
            continue
        if name == 'check':
            full('at a checkpoint')
            continue
        if name == 'reopen':
            ctx.fault('restart')
            drop()
            full('after reopening')
            ctx.log('reopen')
            continue
        if name == 'crash':
            ctx.fault('crash_%s' % op[1])
            disk.crash(op[1], rng)
            drop()
            full('after a crash (%s)' % op[1])
            ctx.log('crash')
            continue
        if name == 'fault':
            fault, sub = op[1], op[2]
            faulty(plan, ctx, disk, hg(), models, fault, sub, rng, drop)
            if prop in ASPECTS and len(models) > 1:
                full('after %s failed (%s)' % (show_op(sub), fault['kind']))
            continue
        try:
            got = run_op(hg(), op)
            raised = None
        except core.Planned:
            got, raised = None, 'planned'
        except Exception as e:
            raise Violation('exception', '%s raised %r' % (show_op(op), e))
        if planned_raise(op) != (raised is not None):
            raise Violation('exception', '%s: the error of a batch function did not propagate' % show_op(op))
        ctx.log(show_op(op), summary(got))
        good, why = [], None
        for m in models:
            want = model_op(m, op)
            bad = None
            if raised is None and relevant(op, prop):
                ctx.cases += 1
                bad = agree(op, got, want)
            if bad is None:
                good.append(m)
            elif why is None:
                why = bad
        if not good:
            raise Violation('mismatch', why)
        models[:] = dedup(good)
        ctx.state(models[0].signature())
        if len(models) > 1:
            full('later')
    full('at the end')
    drop()
    full('after the final restart', True)


def relevant(op, prop):
    """Reads of other aspects are other properties' business; reads inside a batch are C08's."""
    return op[0] in READS[prop]


def summary(got):
    if isinstance(got, list):
        return sorted(repr(g) for g in got)[:6]
    return repr(got)


def dedup(models):
    out, sigs = [], set()
    for m in models:
        s = m.signature()
        if s not in sigs:
            sigs.add(s)
            out.append(m)
    return out


def faulty(plan, ctx, disk, hg, models, fault, op, rng, drop):
    """Runs an operation under a fault; extends the candidate models by what it may have done."""
    before = [m.copy() for m in models]
    crash = fault['kind'] == 'crash'
    if fault['kind'] == 'interrupt':
        core.INT.arm(fault['nth'], fault.get('exc'))
    else:
        disk.set_fault({k: v for k, v in fault.items() if k != 'mode'})
    raised = None
    try:
        run_op(hg, op)
    except (core.Planned, KeyboardInterrupt) as e:
        raised = e
    except Exception as e:
        raised = e
    fired = disk.faulted or core.INT.fired > 0
    if core.INT.fired:
        ctx.fault(core.INT.kind)
    core.INT.disarm()
    core.INT.fired = 0
    dead = disk.dead
    disk.set_fault(None)
    ctx.log('fault', fault['kind'], show_op(op), fired, type(raised).__name__)
    if raised is not None and not fired and not planned_raise(op):
        raise Violation('exception', '%s raised %r' % (show_op(op), raised))
    if crash:
        disk.crash(fault['mode'], rng)
        drop()
    for m in models:
        model_op(m, op)
    if (raised is not None and not isinstance(raised, core.Planned)) or dead:
        models[:] = dedup(before + models)
