"""C12: loading through the buffering wrapper is equivalent to direct loading and loses nothing."""
import random

from sim import core
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, check_model, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.scen_history import gen_fault
from sim.values import key, lst, tup

TWIN = '/twin/gb.db'
ADDS = ('add', 'addm', 'belief', 'beliefm')


def gen(rng, prop, tier, i):
    pool = pool_for(rng, nedges=rng.randint(2, 12), maxlen=4)
    g = Gen(rng, pool, writes=ADDS)
    prefix = Gen(rng, pool).history(rng.choice((0, 0, 1, 4)), reads=0)
    n = rng.choice((0, 1, 2, 5, 10, 20))
    limit = rng.choice((0, 1, 2, 3, 4, 7, 15, 1000))
    trouble = rng.choice((0, 0, 0.15, 0.4))
    pflush = rng.choice((0, 0.1, 0.3))
    ops = []
    big = rng.random() < (0.01 if tier == 'quick' else 0.02)
    for _ in range(n):
        while rng.random() < pflush:
            ops.append(step(rng, ['flush'], trouble))
        ops.append(step(rng, g.write(), trouble))
    if big:
        limit = rng.choice((1000, 500))
        count = rng.choice((limit, limit + 1, limit + 2, 2 * limit + 3))
        many = []
        for k in range(count):
            many.append(['n%d' % (k % 97), k // 97] if rng.random() < 0.9 else ['n%d/1' % k, 'x'])
        cut = rng.randrange(1, count)
        ops += [['addm', many[:cut], 5]] + [['add', e, k % 7 - 1] for k, e in enumerate(many[cut:cut + 40])] + [['addm', many[cut + 40:] or [['x', 'y']], 9]]
    return dict(type='bulk', prefix=prefix, ops=ops, limit=limit, default=limit == 1000 and rng.random() < 0.7, big=big)


def step(rng, op, trouble):
    if rng.random() < trouble:
        f = gen_fault(rng)
        return ['fault', f, op, rng.choice(('again', 'flush', 'later'))]
    return op


def plain(op):
    return op[2] if op[0] == 'fault' else op


def run(plan, ctx, prop):
    src = core.source_symbol()
    ops = [plain(op) for op in plan['ops']]
    adds = [op for op in ops if op[0] != 'flush']
    voc = core.Vocab(plan['prefix'] + adds, src)
    main, twin_disk = WORLD.disk('main'), WORLD.disk('twin')
    rng = random.Random('power-%s' % plan['seed'])
    limit = plan['limit']
    m = Model(src)
    try:
        hg, twin = core.new_hg(), core.new_hg(TWIN)
        for op in plan['prefix']:
            for h in (hg, twin):
                try:
                    run_op(h, op)
                except core.Planned:
                    pass
            model_op(m, op)
        for op in adds:
            run_op(twin, op)
            model_op(m, op)
        core.close_hg(twin)
        twin = core.new_hg(TWIN)
        want = observe(twin, voc, deep=not plan['big'])
    except Exception as e:
        raise Violation('exception', 'loading directly raised %r' % e)

    def wrapper():
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        return BatchHyperGraph(hg) if plan['default'] else BatchHyperGraph(hg, limit)

    def apply(b, op):
        if op[0] == 'flush':
            b.flush()
        else:
            run_op(b, op)

    def check_rest(b, accepted, what):
        """At most `limit` accepted edges are not stored yet."""
        ctx.cases += 1
        rest = [e for e in accepted if not hg.exists(e)]
        if len(rest) > limit:
            raise Violation('limit', 'after %s, %d accepted edges are not stored, the buffer limit is %d' % (what, len(rest), limit))
        if accepted and b.exists(accepted[0]) != hg.exists(accepted[0]):
            raise Violation('read-through', 'the wrapper and the hypergraph disagree about %s' % core.show(accepted[0]))
    trial = 0
    used = set()
    while True:
        trial += 1
        b = wrapper()
        accepted, keys = [], set()
        rerun = False
        for pos, st in enumerate(plan['ops']):
            op = plain(st)
            if op[0] != 'flush':
                for e in core.op_edges(op, src):
                    if key(e) not in keys:
                        keys.add(key(e))
                        accepted.append(e)
            text = 'flush' if op[0] == 'flush' else show_op(op)[:200]
            if st[0] == 'fault' and pos not in used:
                used.add(pos)
                f = st[1]
                if f['kind'] == 'interrupt':
                    core.INT.arm(f['nth'], f.get('exc'))
                else:
                    main.set_fault({k: v for k, v in f.items() if k != 'mode'})
                raised = None
                try:
                    apply(b, op)
                except (Exception, KeyboardInterrupt) as e:
                    raised = e
                fired = main.faulted or core.INT.fired
                if core.INT.fired:
                    ctx.fault(core.INT.kind)
                core.INT.disarm()
                core.INT.fired = 0
                dead = main.dead
                main.set_fault(None)
                ctx.log('fault', f['kind'], text, type(raised).__name__, dead)
                if raised is not None and not fired:
                    raise Violation('exception', '%s raised %r' % (text, raised))
                if f['kind'] == 'crash' and (dead or f['nth'] % 2):
                    main.crash(f['mode'], rng)
                    core.close_hg(hg)
                    ctx.fault('restart_of_the_load')
                    try:
                        hg = core.new_hg()
                    except Exception as e:
                        raise Violation('exception', 'reopening after a crash raised %r' % e)
                    rerun = True
                    break
                if raised is not None:
                    if st[3] == 'later':
                        continue
                    try:
                        apply(b, op if st[3] == 'again' else ['flush'])
                    except Exception as e:
                        raise Violation('exception', 'retrying %s after it raised %r raised %r' % (text, raised, e))
                check_rest(b, accepted, text)
                continue
            try:
                apply(b, op)
            except Exception as e:
                raise Violation('exception', '%s through the buffering wrapper raised %r' % (text, e))
            ctx.log(text)
            if op[0] == 'flush':
                missing = [e for e in accepted if not hg.exists(e)]
                if missing:
                    raise Violation('lost', 'after a flush, %s is not stored' % core.show(missing[0]))
            elif not plan['big'] or pos % 10 == 0:
                check_rest(b, accepted, text)
        if rerun:
            continue
        break
    try:
        b.flush()
        got = observe(hg, voc, deep=not plan['big'])
        b.flush()
        again = observe(hg, voc, deep=not plan['big'])
        fresh = core.new_hg()
        other = observe(fresh, voc, deep=not plan['big'])
    except Exception as e:
        raise Violation('exception', 'the final flush or reading raised %r' % e)
    ctx.cases += 3
    bad = obs_diff(want, got, voc, 'directly', 'through the wrapper')
    if bad:
        raise Violation('differs', 'loaded with a buffer of %d%s: %s' % (limit, ' and failures' if used else '', bad))
    bad = obs_diff(got, again, voc, 'once', 'after flushing nothing')
    if bad:
        raise Violation('empty-flush', bad)
    bad = obs_diff(want, other, voc, 'directly', 'through the wrapper, another connection')
    if bad:
        raise Violation('invisible', bad)
    bad = check_model(fresh, m, voc, ('exists', 'degree', 'ts'))
    if bad:
        raise Violation('differs', 'against the model: %s' % bad)
    ctx.order(limit, [op[0] for op in plan['ops']], trial)
    ctx.state(got['length'])
