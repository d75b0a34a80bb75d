"""C19: a traversal yields every vertex once, in one consistent state, whatever happens between its elements."""
from sim import core
from sim.core import Violation, run_op, model_op, show_op, agree, agree_all, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.scen_concurrent import locked
from sim.values import key, lst, tup, show

OWN_READS = ('exists', 'pat', 'star', 'roots', 'deg', 'ts', 'sources', 'all')
GIVEN = (None, False, 0, '', (), True, 7, 'x', [], {}, StopIteration, 0.0)
OTHER_WRITES = ('add', 'addm', 'rm', 'rmm', 'destroy', 'belief', 'beliefm', 'unbelief', 'rmpat')


LATE = ['add', ['late/1', 'edge/1', 'x'], 3]


class Stop(Exception):
    pass


def same(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def big_edges(n, seed):
    """Many edges that share some vertices."""
    return [['v%d/%d' % (i % 7, seed), 'x%05d/%d' % (i, seed), 'y%d/1' % (i // 3)] for i in range(n)]


def gen(rng, prop, tier, i):
    if rng.random() < 0.35:
        from sim import scen_concurrent
        return scen_concurrent.gen(rng, 'C19', tier, i)
    pool = pool_for(rng, nasty=rng.random() < 0.2, nedges=rng.randint(1, 6), maxlen=4)
    g = Gen(rng, pool, writes=OTHER_WRITES)
    prefix = g.history(rng.choice((1, 2, 4, 8)), reads=0)
    big = 0
    if rng.random() < 0.08:
        big = rng.choice((20, 60, 200, 400)) if rng.random() < 0.65 else rng.choice((700, 1100))
    where = rng.choice(('direct', 'direct', 'backend', 'batch', 'batch'))
    travs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        steps = []
        for _ in range(rng.choice((0, 1, 2, 3, 5))):
            f = round(rng.random(), 4)
            k = rng.random()
            if k < 0.42:
                steps.append([f, 'q', g.read()])
            elif k < 0.55:
                steps.append([f, 'in', g.read()])
            elif k < 0.8:
                steps.append([f, 'w', g.write(only=OTHER_WRITES)])
            elif k < 0.86:
                steps.append([f, 'nest'])
            elif k < 0.92:
                steps.append([f, 'second', rng.randint(1, 6)])
            else:
                steps.append([f, 'r', g.read()])
        fault = None
        x = rng.random()
        if x < 0.15:
            fault = dict(kind='error', call=rng.choice(('any', 'read', 'read', 'lock')), nth=rng.choice((0, 1, 2, 3, 5, 9, 20)), count=rng.choice((1, 1, 3)))
        elif x < 0.2:
            fault = dict(kind='interrupt', nth=rng.choice((0, 1, 2, 3)), exc=rng.choice(('KeyboardInterrupt', 'MemoryError', 'refused')))
        elif x < 0.27:
            fault = dict(kind='raise', at=round(rng.random(), 4))
        elif x < 0.33:
            fault = dict(kind='drop', at=round(rng.random(), 4))
        travs.append(dict(steps=steps, fault=fault, writes=[g.write(only=OTHER_WRITES) for _ in range(rng.choice((0, 0, 1, 2)))], lazy=rng.random() < 0.2, keep=rng.random() < 0.25, give=rng.random() < 0.15))
    return dict(type='traverse', prefix=prefix, big=big, items=travs, where=where, raise_end=rng.random() < 0.15)


def run(plan, ctx, prop):
    if plan['type'] == 'concurrent':
        from sim import scen_concurrent
        return scen_concurrent.run(plan, ctx, prop)
    src = core.source_symbol()
    ops = list(plan['prefix'])
    for t in plan['items']:
        ops += t['writes'] + [s[2] for s in t['steps'] if s[1] in 'qinwr']
    if plan['big']:
        ops.append(['addm', big_edges(plan['big'], 1), 5])
    voc = core.Vocab(ops + [LATE], src)
    m = Model(src)
    try:
        hg = core.new_hg()
        for op in plan['prefix'] + ([['addm', big_edges(plan['big'], 1), 5]] if plan['big'] else []):
            run_op(hg, op)
            model_op(m, op)
        core.close_hg(hg)
        hg = core.new_hg()
        other = core.new_hg()
    except Exception as e:
        raise Violation('exception', 'before the traversal: %r' % e)
    t = Traversals(ctx, hg, other, voc, WORLD.disk('main'))
    t.m = m
    if plan['where'] == 'batch':
        before = m.copy()

        def fun(item):
            def f(b):
                t.item(item, b)
            return f

        def end(b):
            raise Stop()
        t.in_batch = True
        raised = None
        try:
            hg.batch_exec([fun(x) for x in plan['items']] + ([end] if plan['raise_end'] else []))
        except Stop as e:
            raised = e
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            if t.injected is None:
                raise Violation('exception', 'a batch with a traversal raised %r' % e)
            raised = e
        t.in_batch = False
        if raised is not None:
            t.m = before
            for op in t.outside:
                model_op(t.m, op)
    else:
        for x in plan['items']:
            t.item(x, hg if plan['where'] == 'direct' else hg.backend)
    # afterwards, from everywhere
    for h, who in ((hg, 'the same'), (other, 'another'), (None, 'a new')):
        try:
            h = h or core.new_hg()
            got = run_op(h, ['all'])
        except Exception as e:
            raise Violation('exception', 'a traversal by %s client afterwards raised %r' % (who, e))
        ctx.cases += 1
        bad = agree_all(got, t.m, voc.keys)
        if bad:
            raise Violation('afterwards', 'by %s client afterwards, %s' % (who, bad))
    ctx.state(sorted((repr(key(v)), d) for v, d in got))


class Traversals(object):
    def __init__(self, ctx, hg, other, voc, disk):
        self.ctx = ctx
        self.hg = hg
        self.other = other
        self.voc = voc
        self.disk = disk
        self.in_batch = False
        self.injected = None
        self.m = None
        self.outside = []          # what other clients wrote during a batch
        self.touched = False       # did the batch write?

    def item(self, item, target):
        for op in item['writes']:
            try:
                if op[0] == 'rmpat':
                    run_op(self.hg, op)
                else:
                    run_op(target, op, self.hg)
            except Exception as e:
                if self.injected is not None and not self.in_batch:
                    raise Violation('unusable', '%s after a failed traversal raised %r' % (show_op(op), e))
                if self.injected is not None:
                    raise       # the batch fails
                raise Violation('exception', '%s between traversals raised %r' % (show_op(op), e))
            model_op(self.m, op)
            self.touched = True
        self.traverse(item, target)

    def one(self, op, target, states, who):
        """A query in the middle: it sees the state at some instant."""
        try:
            if op[0] in ('sources',):
                got = run_op(self.hg if who != 'other' else self.other, op)
            else:
                got = run_op(target, op, self.hg)
        except Exception as e:
            if self.fired() or self.in_batch and self.injected is not None:
                self.injected = type(e)
                return
            raise Violation('exception', '%s in the middle of a traversal raised %r' % (show_op(op), e))
        bad = None
        if self.in_batch and self.injected is not None:
            return
        for s in states:
            bad = agree_all(got, s, self.voc.keys) if op[0] == 'all' else agree(op, got, model_op(s, op))
            if bad is None:
                break
        self.ctx.cases += 1
        if bad:
            raise Violation('query', 'in the middle of a traversal, %s' % bad)

    def fired(self):
        return self.disk.faulted or core.INT.fired > 0

    def traverse(self, item, target):
        ctx = self.ctx
        rows = len(self.m.deg)
        steps = sorted(([int(s[0] * max(rows, 1))] + s[1:] for s in item['steps']), key=lambda s: s[0])
        fault = item['fault']
        outside = self.m.copy()     # what other clients see (different inside of a batch)
        states = [self.m]
        self.disk.set_fault(None)
        pending = [None]
        calls = [0]
        stop_at = None
        if fault:
            if fault['kind'] == 'error':
                self.disk.set_fault(fault)
            elif fault['kind'] == 'interrupt':
                core.INT.arm(fault['nth'], fault['exc'])
            else:
                stop_at = int(fault['at'] * max(rows, 1))

        def visit(v):
            calls[0] += 1
            if fault and fault['kind'] == 'raise' and calls[0] - 1 == stop_at:
                ctx.fault('visitor_raises')
                raise Stop('planned')
            if set(v) < set(('vertex', 'degree')):
                raise Violation('map', 'the vertex map is %r' % v)
            op, pending[0] = pending[0], None
            if op is not None:
                self.one(op, target, states, 'own')
            if item.get('give'):
                seen.append((v['vertex'], v['degree']))
                given.append(GIVEN[(len(given) * 5 + len(steps)) % len(GIVEN)])
                return given[-1]
            return v if item.get('keep') else (v['vertex'], v['degree'])
        seen, given = [], []
        got = []
        dropped = False
        second = []
        raised = None
        second_from = 0
        n = 0
        try:
            it = iter(target.f_all(visit))
            if item['lazy']:
                # nothing was asked for yet: another client may still write
                self.write(LATE, states)
            while True:
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                while steps and steps[0][0] <= n:
                    s = steps.pop(0)
                    ctx.log('step', n, s[1])
                    if s[1] == 'q':
                        self.one(s[2], target, states, 'own')
                    elif s[1] == 'in':
                        pending[0] = s[2]
                    elif s[1] == 'nest':
                        self.one(['all'], target, states, 'own')
                    elif s[1] == 'second':
                        if not second:
                            second = [iter(target.f_all(lambda v: (v['vertex'], v['degree']))), []]
                            second_from = len(states) - 1
                        for _ in range(s[2]):
                            second[1].extend([x for x in [next(second[0], None)] if x is not None])
                    elif s[1] == 'r':
                        if not self.in_batch:
                            self.one(s[2], self.other, states, 'other')
                        else:
                            self.reads_outside(s[2])
                    elif s[1] == 'w':
                        self.write(s[2], states)
                n += 1
                if fault and fault['kind'] == 'drop' and n > stop_at:
                    dropped = True
                    break
        except Stop as e:
            if not fault or fault['kind'] != 'raise':
                raise
            raised = e
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            if not self.fired() and not (self.in_batch and self.injected is not None):
                raise Violation('exception', 'a traversal raised %r' % e)
            raised = e
        core.INT.disarm()
        fired = self.fired()
        if core.INT.fired:
            ctx.fault(core.INT.kind)
        core.INT.fired = 0
        self.disk.set_fault(None)
        self.m = states[-1]
        if raised is not None:
            ctx.log('raised', type(raised).__name__)
            it = None
            second = None
            raised.__traceback__ = None
            if self.in_batch:
                # the batch fails with it
                self.injected = type(raised)
                raise raised
            self.injected = type(raised)
            return
        if item.get('give'):
            # the visitor returned other things
            ctx.fault('visitor_results')
            if not same(got, given[:len(got)]) or not dropped and len(got) != len(given):
                raise Violation('results', 'the function returned %r, the traversal yields %r' % (given[:20], got[:20]))
            got = seen[:len(got)]
        elif item.get('keep'):
            # the visitor kept what it was given
            ctx.fault('maps_kept')
            got = [(v['vertex'], v['degree']) for v in got]
        ctx.log('traversed', len(got), dropped, len(states))
        if self.in_batch and self.injected is not None:
            # the storage failed under a query of the batch, which may have lost its transaction:
            # then it fails at its end, and until then it sees anything
            ctx.fault('batch_lost')
            return
        ctx.cases += 1
        if dropped:
            ctx.fault('traversal_dropped')
            it.close() if hasattr(it, 'close') else None
            it = None
            have = [key(v) for v, d in got]
            if len(set(have)) != len(have):
                raise Violation('twice', 'a traversal yields a vertex twice')
            for v, d in got:
                if not any(s.degree(v) == d and (key(v) in self.voc.keys or key(v) in s.deg) for s in states):
                    raise Violation('degree', 'a traversal yields %s with degree %r' % (show(v), d))
            return
        bad = None
        for s in states:
            bad = agree_all(got, s, self.voc.keys)
            if bad is None:
                break
        if bad:
            raise Violation('traversal', '%s%s%s' % (bad, ' (in a batch)' if self.in_batch else '', ', compared with %d states' % len(states) if len(states) > 1 else ''))
        if calls[0] != len(got):
            raise Violation('calls', 'the function was called %d times for %d vertices' % (calls[0], len(got)))
        if second:
            try:
                second[1].extend(second[0])
            except Exception as e:
                if not fired and not (self.in_batch and self.injected is not None):
                    raise Violation('exception', 'a second traversal at the same time raised %r' % e)
                return
            for s in states[second_from:]:
                bad = agree_all(second[1], s, self.voc.keys)
                if bad is None:
                    break
            if bad:
                raise Violation('second', 'in a second traversal at the same time, %s' % bad)
        ctx.order(len(got), [s[1] for s in item['steps']], len(states), self.in_batch, fault and fault['kind'])

    def write(self, op, states):
        """Another client writes: blocked, or the state changes."""
        try:
            run_op(self.other, op)
        except Exception as e:
            if not locked(e) and not self.fired():
                raise Violation('exception', '%s by another client during a traversal raised %r' % (show_op(op), e))
            self.ctx.fault('writer_blocked')
            if self.fired() and not locked(e) and not self.in_batch:
                # what became of it is found out afterwards, with the storage working
                self.disk.set_fault(None)
                self.resolve(op, states)
            return
        if self.in_batch:
            self.outside.append(op)
            if self.touched and self.injected is None:
                raise Violation('isolation', '%s by another client succeeded in the middle of a batch that wrote' % show_op(op))
        self.ctx.fault('writer_wrote')
        s = states[-1].copy()
        model_op(s, op)
        states.append(s)

    def resolve(self, op, states):
        s = states[-1].copy()
        model_op(s, op)
        self.disk.faulted = True
        states.append(s)
        # all or nothing: whichever the contents agree with
        h = core.new_hg()
        try:
            got = run_op(h, ['all'])
        finally:
            core.close_hg(h)
        if agree_all(got, s, self.voc.keys) is not None:
            states.pop()

    def reads_outside(self, op):
        try:
            run_op(self.other, op)
        except Exception as e:
            if not locked(e) and not self.fired():
                raise Violation('exception', '%s by another client raised %r' % (show_op(op), e))
