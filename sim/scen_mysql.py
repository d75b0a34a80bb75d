"""C15: the MySQL backend against the SQLite one, with server and connection failures."""
import random
from decimal import Decimal

from sim import core, seams
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, planned_raise, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model, UNKNOWN
from sim.scen_crash import flat_any
from sim.values import POISON, lst, tup, key, is_edge

DROPS = ('drop', 'drop_lost', 'crash', 'reply', 'reply_crash')
ABORTS = ('deadlock', 'lock_wait', 'killed', 'full', 'readonly')
TABLES = ('CREATE TABLE vertices (id VARCHAR(10000), PRIMARY KEY (id(250))) ENGINE=InnoDB DEFAULT CHARSET=utf8 COLLATE=utf8_bin;',
          'ALTER TABLE vertices ADD COLUMN degree INT DEFAULT 0', 'ALTER TABLE vertices ADD COLUMN timestamp BIGINT DEFAULT -1',
          'CREATE TABLE perms (id VARCHAR(10000), PRIMARY KEY (id(250))) ENGINE=InnoDB DEFAULT CHARSET=utf8 COLLATE=utf8_bin;')
LONG = 250


def gen_fault(rng):
    k = rng.choice(DROPS + ABORTS + ABORTS + ('reply',))
    x = rng.random()
    frac = round(rng.random(), 4) if x < 0.55 else 0.9999 if x < 0.8 else 0.0
    return dict(kind=k, frac=frac, count=rng.choice((1, 1, 1, 50)) if k in ABORTS else 1)


def gen(rng, prop, tier, i):
    pool = pool_for(rng, heavy=rng.random() < 0.1, nedges=rng.randint(2, 7), odd=False)
    g = Gen(rng, pool)
    long_ids = rng.random() < 0.04
    astral = rng.random() < 0.03
    if long_ids:
        stem = 'x' * rng.choice((244, 246, 260))
        pool.edges.extend([('is', stem + c, 'b/1') for c in 'ab'])
    if rng.random() < 0.05:
        # of two elements: what the first 250 characters tell apart
        pool.edges.extend([('is', 'q' * rng.choice((270, 1200, 3500))), ('long/1', ('is', 'w' * rng.choice((400, 2500))))])
    if astral:
        pool.edges.append(('is', '\U0001f600/1', 'b/1'))
    ops = []
    trouble = rng.choice((0, 0.15, 0.3, 0.6))
    clients = rng.choice((1, 1, 1, 2, 3))
    for op in g.history(rng.choice((3, 6, 10, 16)), reads=0.35):
        x = rng.random()
        if x < 0.05:
            ops.append(['reopen'])
        elif x < 0.08:
            ops.append(['server_crash'])
        elif x < 0.13:
            ops.append(['check'])
        elif x < 0.16:
            ops.append(['open_fault', gen_fault(rng), rng.choice((None, 2003, 1040))])
        elif x < 0.19:
            bad = list(pool.edge())
            bad[rng.randrange(len(bad))] = rng.choice(POISON)
            ops.append(['poison', rng.choice((['add', lst(bad), 5], ['addm', g.edges() + [lst(bad)], 5], ['beliefm', 'mary/1', g.edges() + [lst(bad)], 5]))])
        if clients > 1 and rng.random() < 0.4:
            ops.append(['use', rng.randrange(clients)])
        if core.writes(op) and rng.random() < trouble:
            ops.append(['fault', gen_fault(rng), op, rng.random() < 0.5])
        elif op[0] == 'batch' and rng.random() < 0.2:
            op[1].insert(rng.randrange(len(op[1]) + 1), ['raise'])
            ops.append(op)
        else:
            ops.append(op)
    return dict(type='mysql', ops=ops, initial=rng.choice((None, None, None, 1, 2, 3, 4)), charset=rng.choice(('utf8mb4', 'utf8mb4', 'utf8')))


def plain(ops):
    for op in ops:
        if op[0] in ('fault',):
            yield op[2]
        elif op[0] == 'poison':
            pass
        elif op[0] not in ('reopen', 'server_crash', 'check', 'open_fault', 'use'):
            yield op


def open_mysql():
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'mysql', 'host': 'localhost', 'user': 'gb', 'password': 'gb', 'db': 'gbtest'})


def close(hg):
    try:
        hg.backend.conn.close()
    except Exception:
        pass


def text_len(e):
    if is_edge(e):
        return 1 + sum(text_len(x) + 1 for x in e)
    if isinstance(e, float):
        return len(format(Decimal(repr(e)), 'f')) + 2
    return len(str(e))


def limits(op, src):
    """Which limits of the table definitions this operation exceeds, by the error that the server reports."""
    found = {}
    for e in core.op_edges(op, src):
        t = core.show(e)
        if any(ord(c) > 0xffff for c in t):
            found[1366] = 'mysql-utf8'
        if text_len(e) > LONG - 4:
            found[1062] = 'mysql-id-prefix'
    return found


def run(plan, ctx, prop):
    from sim import mysqlsim
    src = core.source_symbol()
    server = mysqlsim.Server()
    server.charset = plan['charset']
    seams.MYSQL.server = server
    try:
        Run(plan, ctx, src, server).all()
    finally:
        seams.MYSQL.server = None


class Run(object):
    def __init__(self, plan, ctx, src, server):
        self.plan = plan
        self.ctx = ctx
        self.src = src
        self.server = server
        self.disk = WORLD.disk('main')
        self.voc = core.Vocab(list(flat_any(list(plain(plan['ops'])))), src)
        self.voc.edges = self.voc.edges[:14]
        self.voc.entities = self.voc.entities[:22]
        self.voc.patterns = self.voc.patterns[:8]
        self.voc.roots = self.voc.roots[:6]
        self.model = Model(src)       # only for what is unspecified (timestamps)
        self.ambiguous = False
        self.other = []               # other state that the model may be in
        self.hg = None
        self.hgs = {}
        self.cur = 0
        self.twin = None

    def all(self):
        if self.plan['initial'] is not None:
            from MySQLdb.constants import CLIENT
            c = self.server.connect(client_flag=CLIENT.FOUND_ROWS)
            for stmt in TABLES[:self.plan['initial']]:
                c.query(stmt)
            c.close()
            self.ctx.fault('partial_schema')
        self.twin = core.new_hg()
        self.reopen()
        for op in self.plan['ops']:
            self.server.reset()
            getattr(self, 'do_' + op[0], self.plain_op)(op)
            if self.ambiguous:
                break
        self.check('at the end')
        self.check('at the end', True)
        close(self.hg)
        core.close_hg(self.twin)

    def reopen(self):
        if self.hg is not None:
            close(self.hg)
        self.server.reset()
        try:
            self.hg = open_mysql()
        except Exception as e:
            raise Violation('exception', 'opening raised %r' % e)

    def mask(self, obs):
        obs['ts'] = [None if any(m.timestamp(v) == UNKNOWN for m in [self.model] + self.other) else t for v, t in zip(self.voc.entities, obs['ts'])]
        return obs

    def observe_twin(self):
        return self.mask(observe(self.twin, self.voc))

    def observe_mysql(self, fresh, when):
        hg = self.hg
        try:
            if fresh:
                hg = open_mysql()
            obs = observe(hg, self.voc)
            if fresh:
                close(hg)
        except Exception as e:
            raise Violation('unusable', '%s: reading (%s) raised %r' % (when, 'new connection' if fresh else 'same connection', e))
        return self.mask(obs)

    def check(self, when, fresh=False):
        self.ctx.cases += 1
        self.server.reset()
        want = self.observe_twin()
        got = self.observe_mysql(fresh, when)
        if got != want:
            raise Violation('mismatch', '%s: %s' % (when, obs_diff(want, got, self.voc, 'SQLite', 'MySQL')))
        self.ctx.state((want['length'], want['degree']))

    def do_check(self, op):
        self.check('at a checkpoint', True)

    def do_reopen(self, op):
        self.ctx.fault('restart')
        self.reopen()
        self.check('after reopening')

    def do_use(self, op):
        """Another client goes on."""
        self.hgs[self.cur] = self.hg
        self.cur = op[1]
        self.hg = self.hgs.get(self.cur)
        if self.hg is None:
            self.reopen()
        elif not self.hg.backend.conn.alive:
            self.hg = None
            self.reopen()
        self.ctx.fault('client_switch')
        self.check('from another client')

    def do_server_crash(self, op):
        self.ctx.fault('server_crash')
        self.server.crash()
        self.hg = None
        self.reopen()
        self.check('after a crash of the server')

    def do_open_fault(self, op):
        f, refuse = op[1], op[2]
        s = self.server
        close(self.hg)
        s.reset()
        what = 'opening with %s' % (refuse or f['kind'])
        if refuse is not None:
            s.refuse = refuse
        else:
            s.fault = dict(kind=f['kind'], nth=int(f['frac'] * 6), count=f['count'])
        try:
            self.hg = open_mysql()
            raised = None
        except Exception as e:
            raised = e
        fired = s.fired
        s.refuse = None
        s.reset()
        self.ctx.cases += 1
        if fired:
            self.ctx.fault('open_%s' % (refuse or f['kind']))
        self.ctx.log(what, fired, type(raised).__name__)
        if raised is None:
            # it has to be usable then, unless the connection went away after the last statement
            if not self.hg.backend.conn.alive:
                self.hg = None
                self.reopen()
        else:
            if not fired:
                raise Violation('exception', '%s raised %r' % (what, raised))
            self.hg = None
            self.reopen()
        self.check('after ' + what)

    def do_poison(self, op):
        op = op[1]
        self.ctx.cases += 1
        self.ctx.fault('unstorable_element')
        before = self.observe_twin()
        try:
            run_op(self.hg, op)
            raised = None
        except Exception as e:
            raised = e
        if raised is None:
            raise Violation('swallowed', 'the unstorable element in %s raised no error' % ascii(show_op(op)))
        for fresh in (False, True):
            got = self.observe_mysql(fresh, 'after an unstorable element')
            if got != before:
                raise Violation('partial', 'an unstorable element in %s raised %r, but %s' % (ascii(show_op(op)), raised, obs_diff(before, got, self.voc, 'before', 'now')))

    def plain_op(self, op):
        limit = limits(op, self.src)
        want, got, raised, wraised = None, None, None, None
        try:
            want = run_op(self.twin, op)
        except core.Planned as e:
            wraised = e
        except Exception as e:
            # not about MySQL
            raise core.Unusable('the SQLite twin raised %r' % e)
        other = []

        def between(i):
            if i == 1 and op[0] == 'batch':
                other.append(self.observe_mysql(True, 'during a batch'))
        before = self.observe_mysql(False, 'before') if limit or op[0] == 'batch' and len(op[1]) > 1 else None
        try:
            got = run_op(self.hg, op, between=between)
        except core.Planned as e:
            raised = e
        except Exception as e:
            raised = e
            if e.args and type(e.args[0]) is int and e.args[0] in limit:
                self.limit_reached(op, e, limit[e.args[0]], before)
            raise Violation('exception', '%s raised %r on MySQL only' % (show_op(op), e))
        self.ctx.cases += 1
        self.ctx.log(show_op(op), repr(got)[:100])
        if (raised is None) != (wraised is None):
            raise Violation('exception', '%s: the error of a batch function did not propagate' % show_op(op))
        model_op(self.model, op)
        if other and other[0] != before:
            raise Violation('visible', 'in the middle of %s: %s' % (show_op(op), obs_diff(before, other[0], self.voc, 'before', 'seen by another connection')))
        if raised is None:
            bad = self.differ(op, got, want)
            if bad:
                raise Violation('mismatch', bad)

    def limit_reached(self, op, e, ident, before):
        """Known: ids beyond the limits of the table definition raise an error; nothing may have changed."""
        now = self.observe_mysql(True, 'after an error')
        if now != before:
            raise Violation('partial', '%s raised %r, but %s' % (ascii(show_op(op))[:200], e.args[0], obs_diff(before, now, self.voc, 'before', 'now')))
        raise Violation('limit', '%s raised %r' % (ascii(show_op(op))[:200], e.args[0]), ident=ident)

    def differ(self, op, got, want):
        if op[0] == 'hg':
            op = op[1]
        name = op[0]
        if name == 'batch':
            if len(got) != len(want):
                return 'the batch executed %d functions instead of %d' % (len(got), len(want))
            for sub, g, w in zip(op[1], got, want):
                bad = self.differ(sub, g, w)
                if bad:
                    return 'in a batch, ' + bad
            return None
        if name in ('pat', 'star', 'roots', 'sources'):
            got, want = sorted(repr(key(e)) for e in got), sorted(repr(key(e)) for e in want)
        elif name == 'all':
            got, want = sorted(repr((key(v), d)) for v, d in got), sorted(repr((key(v), d)) for v, d in want)
        elif name == 'ts' and (self.model.timestamp(tup(op[1])) == UNKNOWN or got == want):
            return None
        if got != want or type(got) is not type(want):
            return '%s gives %s on MySQL, %s on SQLite' % (show_op(op), str(got)[:150], str(want)[:150])
        return None

    def do_fault(self, op):
        f, sub = op[1], op[2]
        s = self.server
        ctx = self.ctx
        if limits(sub, self.src):
            return
        # how many requests it takes
        snap = s.snapshot()
        probe = open_mysql()
        s.reset()
        try:
            run_op(probe, sub)
        except core.Planned:
            pass
        except Exception as e:
            raise Violation('exception', '%s raised %r on MySQL only' % (show_op(sub), e))
        n = s.calls
        close(probe)
        alive = self.hg.backend.conn
        s.conns = [c for c in s.conns if c is not alive]
        s.restore(snap)
        s.conns.append(alive)
        before = self.observe_twin()
        disk0 = self.disk.snapshot()
        m0 = self.model.copy()
        try:
            run_op(self.twin, sub)
        except core.Planned:
            pass
        model_op(self.model, sub)
        self.other = [m0]
        before = self.mask(before)
        after = self.observe_twin()
        s.reset()
        s.fault = dict(kind=f['kind'], nth=min(int(f['frac'] * n), n - 1), count=f['count'])
        hit = s.fault['nth']
        raised = None
        try:
            run_op(self.hg, sub)
        except Exception as e:
            raised = e
        fired = s.fired
        s.reset()
        ctx.cases += 1
        what = '%s at request %d of %d of %s' % (f['kind'], hit + 1, n, show_op(sub))
        if fired:
            ctx.fault('mysql_%s' % f['kind'], fired)
        ctx.log(what, fired, type(raised).__name__, str(raised)[:60])
        if raised is not None and not fired and not planned_raise(sub):
            raise Violation('exception', '%s: raised %r although nothing was injected' % (what, raised))
        obs = self.observe_mysql(True, 'after ' + what)
        self.other = []
        cls = 'after' if obs == after else 'before' if obs == before else None
        if cls is None:
            raise Violation('partial', '%s raised %r: neither before (%s) nor after (%s)' % (
                what, raised, obs_diff(before, obs, self.voc, 'before', 'found'), obs_diff(after, obs, self.voc, 'after', 'found')))
        if raised is None and cls != 'after':
            raise Violation('swallowed', '%s: it returned normally without its effects: %s' % (what, obs_diff(after, obs, self.voc, 'expected', 'found')))
        if cls == 'before':
            core.close_hg(self.twin)
            self.disk.load(disk0)
            self.twin = core.new_hg()
            self.model = m0
        ctx.order(f['kind'], sub[0], hit, n, cls)
        if raised is not None and before == after and m0.signature() != self.model.signature():
            # not to be told apart by what is visible now, but perhaps later (an unused atom keeps its timestamp)
            self.ambiguous = True
            ctx.log('ambiguous')
        conn = self.hg.backend.conn
        if not conn.alive:
            if f['kind'] in ABORTS:
                raise Violation('unusable', '%s: the connection is gone' % what)
            # the object cannot be used any more; operations on it must not pretend to work
            if op[3]:
                try:
                    run_op(self.hg, ['add', ['dead/1', 'connection/1', 'x'], 1])
                    quiet = True
                except Exception:
                    quiet = False
                if quiet and not self.observed(['dead/1', 'connection/1', 'x']):
                    raise Violation('swallowed', 'after %s: an add on the lost connection raised nothing and stored nothing' % what)
            self.hg = None
            self.reopen()
        else:
            if conn.tx is not None:
                raise Violation('open-transaction', 'after %s, the transaction is still open' % what)
            self.check('after %s, on the same connection' % what)

    def observed(self, e):
        hg = open_mysql()
        r = hg.exists(tup(e))
        close(hg)
        return r
