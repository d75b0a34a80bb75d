"""C05 (acknowledged operations survive any crash) and C06 (a crash in the middle of an operation leaves all or none of it)."""
import random

from sim import core
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, planned_raise, check_model, WORLD
from sim.gen import Gen, pool_for, big_op
from sim.model import Model
from sim.scen_history import gen_fault, faulty, flat_ops, dedup
from sim.values import lst, tup

MODES = ('kill', 'power', 'power', 'power_none')


def bulk_op(rng, g):
    items = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        items.append(g.write(only=('add', 'addm', 'belief', 'beliefm')))
    return ['bulk', items, rng.choice((0, 1, 2, 5, 1000))]


def run_any(hg, op):
    """run_op plus loading through the buffering wrapper."""
    if op[0] != 'bulk':
        return run_op(hg, op)
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    b = BatchHyperGraph(hg, op[2])
    for sub in op[1]:
        run_op(b, sub)
    b.flush()


def model_any(m, op):
    if op[0] != 'bulk':
        return model_op(m, op)
    for sub in op[1]:
        model_op(m, sub)


def flat_any(ops):
    for op in ops:
        if op[0] == 'bulk':
            for s in op[1]:
                yield s
        elif op[0] == 'fault' and op[2][0] == 'bulk':
            for s in op[2][1]:
                yield s
        elif op[0] == 'quiet':
            pass
        else:
            for x in flat_ops([op]):
                yield x


def show_any(op):
    if op[0] == 'bulk':
        return 'bulk%s(%s)' % (op[2], '; '.join(show_op(s) for s in op[1]))
    return show_op(op)


# -- C05 ---------------------------------------------------------------------------------------------------------------
def gen(rng, prop, tier, i):
    heavy = rng.random() < 0.1
    pool = pool_for(rng, heavy=heavy, nedges=rng.randint(2, 6))
    g = Gen(rng, pool)
    if prop == 'C05':
        ops = []
        n = rng.choice((2, 4, 8, 14))
        trouble = rng.choice((0, 0.2, 0.4))
        pc = rng.choice((0.1, 0.3, 0.6))
        for _ in range(n):
            x = rng.random()
            op = bulk_op(rng, g) if x < 0.08 else g.read() if x < 0.2 else g.write()
            if op[0] != 'bulk' and rng.random() < trouble:
                f = gen_fault(rng)
                if f['kind'] == 'crash' and rng.random() < 0.6:
                    f = dict(kind='interrupt', nth=rng.randrange(12))
                ops.append(['fault', f, op])
            else:
                if op[0] == 'batch' and rng.random() < 0.2:
                    op[1].insert(rng.randrange(len(op[1]) + 1), ['raise'])
                ops.append(op)
            if rng.random() < pc:
                ops.append(['crash', rng.choice(MODES), rng.random() < 0.6])
        ops.append(['crash', rng.choice(MODES), rng.random() < 0.6])
        return dict(type='c05', ops=ops)
    prefix = g.history(rng.choice((0, 1, 3, 6, 10)), reads=0)
    op = bulk_op(rng, g)[:2] + [1000] if rng.random() < 0.03 else g.write()   # a single flush
    if rng.random() < 0.015:
        more, op = big_op(rng)
        prefix += more
    k = 6 if tier == 'quick' else 20
    crashes = []
    for _ in range(k):
        crashes.append([rng.choice(('mut', 'mut', 'any', 'write', 'sync', 'delete')), round(rng.random(), 4), rng.choice(MODES), rng.random() < 0.3])
    for _ in range(2):
        crashes.append(['mut', round(1 - rng.random() * 0.25, 4), rng.choice(MODES), False])   # around the commit
    return dict(type='c06', prefix=prefix, op=op, crashes=crashes, after=g.history(rng.choice((0, 1, 2)), reads=0.3), warm=rng.random() < 0.5)


def run(plan, ctx, prop):
    if plan['type'] == 'c05':
        return run05(plan, ctx)
    return run06(plan, ctx)


def run05(plan, ctx):
    src = core.source_symbol()
    voc = core.Vocab(flat_any(plan['ops']), src)
    disk = WORLD.disk('main')
    rng = random.Random('power-%s' % plan['seed'])
    models = [Model(src)]
    box = [None]

    def hg():
        if box[0] is None:
            try:
                box[0] = core.new_hg()
            except Exception as e:
                raise Violation('exception', 'opening raised %r' % e)
        return box[0]

    def drop():
        if box[0] is not None:
            core.close_hg(box[0])
            box[0] = None
    acked = []
    for op in plan['ops']:
        if op[0] == 'crash':
            ctx.fault('crash_%s' % op[1])
            pre = None
            if op[2]:
                try:
                    pre = observe(hg(), voc)
                except Exception as e:
                    raise Violation('exception', 'reading before the crash raised %r' % e)
            disk.crash(op[1], rng)
            drop()
            ctx.cases += 1
            try:
                post = observe(hg(), voc)
            except Exception as e:
                raise Violation('exception', 'reading after the crash raised %r' % e)
            ctx.log('crash', op[1], sorted(map(repr, post['length'].items())))
            ctx.state(post['length'])
            if pre is not None:
                bad = obs_diff(pre, post, voc, 'before the crash', 'after it')
                if bad:
                    raise Violation('lost', 'after %s, %s crash: %s' % (acked[-3:], op[1], bad))
                aspects = ('exists',)
            else:
                aspects = ('exists', 'content', 'degree', 'ts')
            good, why = [], None
            for m in models:
                bad = check_model(hg(), m, voc, aspects)
                if bad is None:
                    good.append(m)
                elif why is None:
                    why = bad
            if not good:
                raise Violation('lost', 'after %s and a %s crash: %s' % (acked[-3:], op[1], why))
            models = dedup(good)
            continue
        if op[0] == 'fault':
            faulty(plan, ctx, disk, hg(), models, op[1], op[2], rng, drop)
            if len(models) > 8:
                models = [m for m in models if check_model(hg(), m, voc, ('exists', 'ts', 'degree')) is None]
                if not models:
                    raise Violation('lost', 'after %s failed, the state is none of those possible' % show_any(op[2]))
            acked.append('failed ' + show_any(op[2]))
            continue
        try:
            run_any(hg(), op)
        except core.Planned:
            pass
        except Exception as e:
            raise Violation('exception', '%s raised %r' % (show_any(op), e))
        for m in models:
            model_any(m, op)
        models = dedup(models)
        acked.append(show_any(op))
        ctx.log(show_any(op))


# -- C06 ---------------------------------------------------------------------------------------------------------------
def calls(disk, cls):
    if cls == 'any':
        return sum(n for c, n in disk.calls.items() if c not in ('lock', 'size'))
    if cls == 'mut':
        return disk.nmut
    return disk.calls.get(cls, 0)


class Stage(object):
    """State before an operation on the disk, what it looks like before and after, how many storage calls it makes."""

    def __init__(self, ctx, prefix, op, voc, warm=False):
        self.ctx = ctx
        self.disk = disk = WORLD.disk('main')
        self.voc = voc
        self.op = op
        self.warm = warm
        self.src = core.source_symbol()
        self.model = Model(self.src)
        try:
            hg = core.new_hg()
            for p in prefix:
                try:
                    run_any(hg, p)
                except core.Planned:
                    pass
                model_any(self.model, p)
            core.close_hg(hg)
            self.snap = disk.snapshot()
            hg = core.new_hg()
            self.before = observe(hg, voc)
            core.close_hg(hg)
            hg = self.open()
            disk.reset_calls()
            core.INT.start_count()
            try:
                self.result = run_any(hg, op)
                self.raised = None
            except core.Planned as e:
                self.raised = e
            self.boundaries = core.INT.disarm()
            self.counts = {c: calls(disk, c) for c in ('any', 'mut', 'open', 'read', 'write', 'sync', 'truncate', 'delete', 'lock')}
            core.close_hg(hg)
            hg = core.new_hg()
            self.after = observe(hg, voc)
            core.close_hg(hg)
        except Violation:
            raise
        except Exception as e:
            core.INT.disarm()
            raise Violation('exception', 'without any fault, %s (after %s) raised %r' % (show_any(op), [show_any(p) for p in prefix][-3:], e))
        ctx.log('op', show_any(op), sorted(self.counts.items()), self.boundaries)

    def reset(self):
        self.disk.set_fault(None)
        self.disk.dead = False
        self.disk.load(self.snap)

    def open(self):
        self.reset()
        hg = core.new_hg()
        if self.warm:
            hg.star('a/1')      # the connection has read (cached pages) already
        return hg

    def classify(self, obs):
        if obs == self.after:
            return 'after'
        if obs == self.before:
            return 'before'
        return None

    def neither(self, obs):
        return 'neither before (%s) nor after (%s)' % (obs_diff(self.before, obs, self.voc, 'before', 'now'), obs_diff(self.after, obs, self.voc, 'after', 'now'))


def run06(plan, ctx):
    src = core.source_symbol()
    op = plan['op']
    probe = ['add', ['probe/1', 'again/1', 'x'], 77]
    voc = core.Vocab(list(flat_any(plan['prefix'] + [op] + plan['after'] + [probe])), src)
    st = Stage(ctx, plan['prefix'], op, voc, plan['warm'])
    disk = st.disk
    rng = random.Random('power-%s' % plan['seed'])
    for cls, frac, mode, partial in plan['crashes']:
        n = st.counts.get(cls, 0)
        if n == 0:
            cls, n = 'any', st.counts['any']
        nth = min(int(frac * n), max(n - 1, 0))
        hg = st.open()
        disk.set_fault(dict(kind='crash', call=cls, nth=nth, partial=partial))
        raised = None
        try:
            run_any(hg, op)
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            raised = e
        fired = disk.faulted
        acked = raised is None and not disk.dead
        disk.set_fault(None)
        disk.crash(mode, rng)
        core.close_hg(hg)
        where = '%s call %d of %d%s' % (cls, nth, n, ', torn' if partial else '')
        ctx.cases += 1
        try:
            hg = core.new_hg()
            obs = observe(hg, voc)
        except Exception as e:
            raise Violation('exception', 'after a %s crash at %s of %s, reopening and reading raised %r' % (mode, where, show_any(op), e))
        what = st.classify(obs)
        ctx.log('crash', cls, nth, mode, partial, fired, what)
        if what is None:
            raise Violation('partial', 'a %s crash at %s of %s: %s' % (mode, where, show_any(op), st.neither(obs)))
        if acked and not fired and st.raised is None and what != 'after':
            raise Violation('lost', '%s returned, then a %s crash lost its effects' % (show_any(op), mode))
        ctx.order(show_any(op), cls, nth, mode, what)
        ctx.state(obs['length'])
        # the reopened hypergraph accepts further operations normally
        m = st.model.copy()
        if what == 'after':
            model_any(m, op)
        try:
            for o in plan['after'] + [probe]:
                try:
                    run_op(hg, o)
                except core.Planned:
                    pass
                model_op(m, o)
            bad = check_model(hg, m, voc, ('exists',))
            core.close_hg(hg)
            hg = core.new_hg()
            bad = bad or check_model(hg, m, voc, ('exists',))
            core.close_hg(hg)
        except Violation:
            raise
        except Exception as e:
            raise Violation('exception', 'after a %s crash at %s of %s, a further operation raised %r' % (mode, where, show_any(op), e))
        if bad:
            raise Violation('further', 'after a %s crash at %s of %s, further operations go wrong: %s' % (mode, where, show_any(op), bad))
