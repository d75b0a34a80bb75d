"""C10: contention resolves in bounded time, no operation leaks a lock."""
import random
import sqlite3

from sim import core, vfs
from sim.core import Violation, run_op, model_op, show_op, planned_raise, agree, check_model, observe, obs_diff, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model
from sim.scen_crash import bulk_op, run_any, model_any, flat_any, show_any
from sim.scen_failure import poison
from sim.scen_concurrent import locked
from sim.scen_history import gen_fault
from sim.values import lst, tup

LEVELS = {'shared': vfs.SHARED, 'reserved': vfs.RESERVED, 'exclusive': vfs.EXCLUSIVE}
BOUND = 5.5


def gen(rng, prop, tier, i):
    if rng.random() < 0.3:
        from sim import scen_concurrent
        plan = scen_concurrent.gen(rng, 'C10', tier, i)
        plan['crash'] = None
        plan['faults'] = []
        if rng.random() < 0.7:
            plan['stall'] = 0
        return plan
    pool = pool_for(rng, nedges=rng.randint(2, 5), maxlen=3)
    g = Gen(rng, pool)
    ops = []
    for _ in range(rng.choice((3, 6, 10))):
        x = rng.random()
        y = rng.random()
        op = bulk_op(rng, g)[:2] + [1000] if y < 0.05 else g.read() if y < 0.35 else g.write()
        if x < 0.4:
            secs = rng.choice((0.001, 0.3, 1.0, 3.0, 4.0, 4.5, 4.9, 6.0, 8.0, 100.0)) if rng.random() < 0.7 else round(rng.choice((rng.random() * 4.9, 5.6 + rng.random() * 5)), 3)
            ops.append(['hold', rng.choice(sorted(LEVELS)), secs, op])
        elif x < 0.55:
            f = gen_fault(rng)
            while f['kind'] == 'crash':
                f = gen_fault(rng)
            ops.append(['fault', f, op])
        elif x < 0.63:
            ops.append(['poison', poison(rng, g, pool)])
        elif x < 0.75:
            ops.append(['drop', rng.choice((0, 1, 2, 3, 1000)), rng.choice(('del', 'close', 'raise', 'error'))])
        elif x < 0.8:
            ops.append(['open', rng.choice((0, 0.5, 4.5, 7.0)), rng.choice(sorted(LEVELS))])
        else:
            if op[0] == 'batch' and rng.random() < 0.4:
                op[1].insert(rng.randrange(len(op[1]) + 1), ['raise'])
            ops.append(['op', op])
        if rng.random() < 0.1:
            ops.append(['use', rng.randrange(3)])
    return dict(type='locks', prefix=g.history(rng.choice((0, 2, 5)), reads=0), ops=ops)


def payloads(plan):
    for op in plan['prefix']:
        yield op
    for st in plan['ops']:
        if st[0] == 'hold':
            yield st[3]
        elif st[0] == 'fault':
            yield st[2]
        elif st[0] == 'op':
            yield st[1]


def run(plan, ctx, prop):
    if plan['type'] == 'concurrent':
        from sim import scen_concurrent
        return scen_concurrent.run(plan, ctx, prop)
    src = core.source_symbol()
    probe = ['add', ['probe/1', 'again/1', 'x'], 77]
    voc = core.Vocab(list(flat_any(list(payloads(plan)) + [probe])), src)
    disk = WORLD.disk('main')
    m = Model(src)
    hgs = {}
    cur = [0]

    def opened(what):
        try:
            return core.new_hg()
        except Exception as e:
            raise Violation('exception', '%s raised %r' % (what, e))

    def hg():
        if cur[0] not in hgs:
            hgs[cur[0]] = opened('opening')
        return hgs[cur[0]]
    for op in plan['prefix']:
        try:
            run_op(hg(), op)
        except core.Planned:
            pass
        except Exception as e:
            raise Violation('exception', '%s raised %r' % (show_op(op), e))
        model_op(m, op)
    other = opened('opening')

    def free(what):
        """Nobody holds a lock now: another client succeeds without waiting."""
        ctx.cases += 1
        t0 = WORLD.now
        con = None
        try:
            con = core.raw(timeout=0)
            con.execute('BEGIN EXCLUSIVE')
            con.execute('ROLLBACK')
        except sqlite3.OperationalError as e:
            raise Violation('leak', 'after %s, another client cannot lock the file: %s (locked: %s)' % (what, e, disk.locked_by_any()))
        finally:
            if con is not None:
                con.close()
        try:
            other.add(('other/1', 'client/1', 'x'))
            if not other.exists(('other/1', 'client/1', 'x')):
                raise Violation('other-client', 'after %s, an edge added by another client does not exist' % what)
            other.remove(('other/1', 'client/1', 'x'))
        except Violation:
            raise
        except Exception as e:
            raise Violation('leak', 'after %s, an operation of another client raised %r' % (what, e))
        for v in ('other/1', 'client/1', 'x'):
            m.deg.setdefault('s:' + v, 0)
            m.ts.setdefault('s:' + v, -1)
            m.ents.setdefault('s:' + v, v)
        if WORLD.now > t0:
            raise Violation('leak', 'after %s, another client had to wait %.3f s' % (what, WORLD.now - t0))

    def state(what, conn=None):
        bad = check_model(conn or hg(), m, voc, ('exists', 'content', 'degree'))
        if bad:
            raise Violation('effect', 'after %s: %s' % (what, bad))

    def hold(level, secs):
        core.external_lock(disk, LEVELS[level], secs)
        disk.faulted = False

    for st in plan['ops']:
        kind = st[0]
        if kind == 'use':
            cur[0] = st[1]
            continue
        h = hg()
        if kind == 'hold':
            level, secs, op = st[1:]
            what = '%s while another client holds a %s lock for %.3f s' % (show_any(op), level, secs)
            before = m.copy()
            after = m.copy()
            want = model_any(after, op)
            disk.nmut = 0
            hold(level, secs)
            t0 = WORLD.now
            raised, got = None, None
            try:
                got = run_any(h, op)
            except core.Planned as e:
                raised = e
            except Exception as e:
                raised = handled(e)
            waited = WORLD.now - t0
            met = disk.faulted
            if WORLD.now < t0 + secs:
                disk.busy_until = None if met or raised is None else disk.busy_until
            disk.busy_until = None
            ctx.fault('lock_held_%s' % level) if met else None
            ctx.log('hold', level, secs, show_any(op), type(raised).__name__, round(waited, 4))
            ctx.order(level, secs, op[0], type(raised).__name__, round(waited, 2))
            if waited > BOUND:
                raise Violation('too-long', '%s: waited %.3f s' % (what, waited))
            planned = isinstance(raised, core.Planned) or (op[0] != 'bulk' and planned_raise(op) and raised is not None and not locked(raised))
            if raised is not None and not planned:
                if not locked(raised):
                    raise Violation('exception', '%s: raised %r' % (what, raised))
                if secs < 4.95 or not met:
                    raise Violation('gave-up', '%s: raised %r after %.3f s' % (what, raised, waited))
                if level != 'exclusive' and op[0] != 'bulk' and not core.writes(op):
                    raise Violation('gave-up', '%s: a read raised %r' % (what, raised))
                free(what + ' failed')
                state(what + ' failed')
                continue
            if planned:
                free(what)
                state(what)
                continue
            m.edges, m.deg, m.ts, m.ents = after.edges, after.deg, after.ts, after.ents
            if op[0] != 'bulk' and not core.writes(op):
                bad = agree(op, got, want)
                if bad:
                    raise Violation('effect', '%s: %s' % (what, bad))
                if secs > BOUND and level == 'exclusive' and waited < secs and not_possible(disk, met):
                    raise Violation('ignored-lock', '%s: succeeded after %.3f s' % (what, waited))
            elif secs > BOUND and waited < secs and before.signature() != after.signature():
                raise Violation('ignored-lock', '%s: succeeded after %.3f s' % (what, waited))
            free(what)
            state(what)
            continue
        if kind == 'op':
            op = st[1]
            what = show_any(op)
            got, raised = None, None
            t0 = WORLD.now
            try:
                got = run_any(h, op)
            except core.Planned as e:
                raised = e
            except Exception as e:
                raise Violation('exception', '%s raised %r' % (what, e))
            want = model_any(m, op)
            if WORLD.now > t0:
                raise Violation('waited', '%s waited %.3f s although nobody holds a lock' % (what, WORLD.now - t0))
            if raised is None and op[0] != 'bulk' and op[0] != 'batch' and not core.writes(op) and op[0] != 'ts':
                bad = agree(op, got, want)
                if bad:
                    raise Violation('effect', bad)
            ctx.log('op', what)
            free(what)
            continue
        if kind == 'fault':
            f, op = st[1], st[2]
            what = '%s (fault %s)' % (show_any(op), f)
            if f['kind'] == 'interrupt':
                core.INT.arm(f['nth'], f.get('exc'))
            else:
                disk.set_fault(f)
            raised = None
            try:
                run_any(h, op)
            except (Exception, KeyboardInterrupt) as e:
                raised = handled(e)
            fired = disk.faulted or core.INT.fired
            if core.INT.fired:
                ctx.fault(core.INT.kind)
            core.INT.disarm()
            core.INT.fired = 0
            disk.set_fault(None)
            if raised is not None and not fired and not isinstance(raised, core.Planned):
                raise Violation('exception', '%s raised %r' % (what, raised))
            ctx.log('fault', what, type(raised).__name__)
            before = m.copy()
            model_any(m, op)
            free(what)
            if raised is not None and not isinstance(raised, core.Planned):
                # all or nothing (C07 says which); go on with what it was
                if check_model(h, m, voc, ('exists', 'degree')) is not None:
                    m.edges, m.deg, m.ts, m.ents = before.edges, before.deg, before.ts, before.ents
                    for v in ('other/1', 'client/1', 'x'):
                        m.deg.setdefault('s:' + v, 0)
                        m.ts.setdefault('s:' + v, -1)
                        m.ents.setdefault('s:' + v, v)
            state(what)
            continue
        if kind == 'poison':
            what = 'the unstorable element in %s' % ascii(show_op(st[1]))
            ctx.fault('unstorable_element')
            try:
                run_op(h, st[1])
            except Exception:
                pass
            ctx.log('poison')
            free(what)
            state(what)
            continue
        if kind == 'drop':
            n, how = st[1], st[2]
            what = 'a traversal dropped (%s) after %d elements' % (how, n)

            def f(v):
                if how == 'error' and f.n >= n:
                    raise ValueError('visitor')
                f.n += 1
                return v['vertex']
            f.n = 0
            it = h.f_all(f)
            try:
                for _ in range(n + 1 if how == 'error' else n):
                    next(it)
                if how == 'close':
                    it.close()
                elif how == 'raise':
                    it.throw(KeyError('consumer'))
            except (StopIteration, KeyError, ValueError):
                pass
            except Exception as e:
                raise Violation('exception', '%s raised %r' % (what, e))
            finally:
                del it
            ctx.log('drop', n, how)
            free(what)
            continue
        if kind == 'open':
            secs, level = st[1], st[2]
            what = 'opening while another client holds a %s lock for %.3f s' % (level, secs)
            if secs:
                hold(level, secs)
            t0 = WORLD.now
            raised, new = None, None
            try:
                new = core.new_hg()
            except Exception as e:
                raised = handled(e)
            waited = WORLD.now - t0
            disk.busy_until = None
            if raised is not None and (not locked(raised) or secs < 4.95):
                raise Violation('exception', '%s raised %r after %.3f s' % (what, raised, waited))
            if waited > BOUND:
                raise Violation('too-long', '%s: waited %.3f s' % (what, waited))
            ctx.log('open', secs, level, type(raised).__name__)
            free(what)
            if new is not None:
                state(what, new)
                core.close_hg(new)
    free('everything')
    state('everything')
    ctx.state(m.signature())


def handled(e):
    """An error that was handled: nothing refers to the frames (and cursors) of the failed operation any more."""
    x = e
    while x is not None:
        x.__traceback__ = None
        x = x.__context__
    return e


def not_possible(disk, met):
    """A read that met an exclusive lock cannot have read past it; one that did not ask for a lock has not read at all."""
    return True
