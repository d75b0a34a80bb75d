"""C14: opening a hypergraph is idempotent, crash-safe and honest."""
import os
import random
import sqlite3

from sim import core, vfs
from sim.core import Violation, run_op, model_op, show_op, check_model, WORLD
from sim.gen import Gen, pool_for
from sim.model import Model, UNKNOWN
from sim.sched import Scheduler
from sim.scen_concurrent import locked
from sim.scen_wordnet import cli, command_line
from sim.values import lst, key

NAMES = ('what?.db', 'a#b.db', 'per%20cent.db', '100%.db', ' spaced .db', 'caf\u00e9.db', '\u65e5\u672c', '~', '~x.db', '$HOME.db', 'a&b=c.db', '-', 'x.db?mode=memory', 'GB.DB', "q'uote.db", 'x' * 200, 'gb')
STATES = ('absent', 'absent', 'empty', 'v0', 'v0d', 'nov', 'noperms', 'v1', 'v2', 'full', 'full', 'full', 'hot', 'garbage')


def gen(rng, prop, tier, i):
    pool = pool_for(rng, nedges=rng.randint(2, 5), maxlen=3)
    g = Gen(rng, pool)
    state = rng.choice(STATES)
    prefix = g.history(rng.choice((1, 3, 5)), reads=0) if state in ('v1', 'v2', 'full', 'hot') else []
    after = g.history(rng.choice((1, 2, 4)), reads=0.3)
    plan = dict(type='opening', name=rng.choice(NAMES) if rng.random() < 0.15 else None, relative=rng.random() < 0.3, rows=rng.random() < 0.6, state=state, prefix=prefix, after=after, garbage=rng.choice((1, 50, 100, 511, 512, 5000)), hot=[rng.random(), rng.choice(('kill', 'power'))])
    if rng.random() < 0.3:
        plan['type'] = 'openers'
        plan['clients'] = [dict(ops=[['open', rng.choice(('api', 'api', 'cli'))], ['add', ['own/%d' % c, 'b/1', 'c/1'], c]] + ([['open', 'api']] if rng.random() < 0.3 else []))
                           for c in range(rng.choice((2, 2, 3, 4)))]
        plan['choices'] = None
        plan['stall'] = rng.choice((0, 0, 0.02, 0.1))
        plan['dt'] = rng.choice((0.0001, 0.002))
        plan['sticky'] = rng.choice((0.0, 0.3, 0.8))
        plan['crash'] = dict(step=rng.randrange(1, 40), mode=rng.choice(('kill', 'power', 'power_none'))) if rng.random() < 0.3 else None
        return plan
    opens = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        how = 'cli' if rng.random() < 0.2 else 'api'
        x = rng.random()
        if x < 0.25:
            f = None
        elif x < 0.5:
            f = dict(kind='crash', call=rng.choice(('any', 'mut', 'mut', 'write', 'sync', 'delete', 'read')), nth=rng.choice((rng.randrange(6), rng.randrange(50))), partial=rng.random() < 0.3,
                     mode=rng.choice(('kill', 'power', 'power', 'power_none')))
        elif x < 0.75:
            f = dict(kind='error', call=rng.choice(('any', 'any', 'mut', 'write', 'sync', 'read', 'delete', 'truncate', 'open')), nth=rng.choice((rng.randrange(6), rng.randrange(60))),
                     count=rng.choice((1, 1, 2, 4, None)))
        elif x < 0.83:
            f = dict(kind='error', call='write', nth=rng.randrange(16), count=rng.choice((1, None)), code=vfs.FULL)
        elif x < 0.88:
            f = dict(kind='short', call='write', nth=rng.randrange(16), count=rng.choice((1, None)))
        elif x < 0.93:
            f = dict(kind='lock', seconds=rng.choice((0.5, 4.0, 6.0, 30.0)), level=rng.choice((vfs.SHARED, vfs.RESERVED, vfs.EXCLUSIVE)))
        elif x < 0.96:
            f = dict(kind='error', call='lock', nth=rng.randrange(10), count=rng.choice((1, None)), code=vfs.BUSY)
        else:
            f = dict(kind='interrupt', nth=rng.randrange(12), exc=rng.choice((None, 'refused')))
        opens.append([how, f, rng.random() < 0.5])
    plan['opens'] = opens
    return plan


def sql(*statements):
    c = core.raw()
    for st in statements:
        c.execute(st)
    c.close()


def old_rows(plan, m):
    """Entities that the tables know already, but no edges."""
    if not plan.get('rows'):
        return []
    names = sorted(set(x for op in plan['after'] + [['add', ['probe/1', 'again/1', 'x'], 77]] if op[0] == 'add' for x in op[1] if isinstance(x, str) and '\0' not in x))
    for x in names:
        k = key(x)
        m.deg[k], m.ts[k], m.ents[k] = 0, UNKNOWN, x
    return ["INSERT INTO vertices (id) VALUES ('%s')" % x.replace("'", "''") for x in names]


def prepare(plan, ctx, rng, src):
    """The file before the first opening; returns (candidate models, aspects that hold for the contents)."""
    state = plan['state']
    disk = WORLD.disk('main')
    m = Model(src)
    aspects = ('exists', 'content', 'pattern', 'degree', 'ts')
    if state == 'empty':
        sql('CREATE TABLE x (y)', 'DROP TABLE x') if rng.random() < 0.3 else disk.files.setdefault(core.DB, vfs.File(core.DB))
    elif state == 'v0':
        sql('CREATE TABLE vertices (id TEXT PRIMARY KEY)', *old_rows(plan, m))
    elif state == 'v0d':
        sql('CREATE TABLE vertices (id TEXT PRIMARY KEY)', 'ALTER TABLE vertices ADD COLUMN degree INTEGER DEFAULT 0', *old_rows(plan, m))
    elif state == 'nov':
        sql('CREATE TABLE perms (id TEXT PRIMARY KEY)')
    elif state == 'noperms':
        sql('CREATE TABLE vertices (id TEXT PRIMARY KEY)', 'ALTER TABLE vertices ADD COLUMN degree INTEGER DEFAULT 0',
            'ALTER TABLE vertices ADD COLUMN timestamp INTEGER DEFAULT -1', *old_rows(plan, m))
    elif state == 'garbage':
        data = bytes(rng.choice(b'this is not a database\n') for _ in range(plan['garbage']))
        disk.load({core.DB: data})
    elif state in ('v1', 'v2', 'full', 'hot'):
        try:
            hg = core.new_hg()
            for op in plan['prefix']:
                try:
                    run_op(hg, op)
                except core.Planned:
                    pass
                model_op(m, op)
            if state == 'hot':
                disk.set_fault(dict(kind='crash', call='mut', nth=int(plan['hot'][0] * 30)))
                before = m.copy()
                try:
                    run_op(hg, ['add', ['hot/1', 'a/1', 'x'], 3])
                except Exception:
                    pass
                disk.set_fault(None)
                disk.crash(plan['hot'][1], rng)
                core.close_hg(hg)
                model_op(m, ['add', ['hot/1', 'a/1', 'x'], 3])
                return [before, m], aspects
            core.close_hg(hg)
        except Exception as e:
            raise Violation('exception', 'preparing raised %r' % e)
        if state != 'full':
            cols = 'id' if state == 'v1' else 'id, degree'
            sql('ALTER TABLE vertices RENAME TO old', 'CREATE TABLE vertices (id TEXT PRIMARY KEY%s)' % (', degree INTEGER DEFAULT 0' if state == 'v2' else ''),
                'INSERT INTO vertices (%s) SELECT %s FROM old' % (cols, cols), 'DROP TABLE old')
            aspects = ('exists', 'content', 'pattern') if state == 'v1' else ('exists', 'content', 'pattern', 'degree')
            for k in m.ts:
                m.ts[k] = UNKNOWN if state == 'v1' else -1
    return [m], aspects


def run(plan, ctx, prop):
    old = core.DB
    if plan.get('name'):
        core.DB = os.path.normpath('/main/' + plan['name'])
        WORLD.names = {os.path.normpath(path_of(plan))} - {core.DB}
    try:
        simulate(plan, ctx)
    finally:
        core.DB = old


def path_of(plan):
    """The name that the file is opened by."""
    if not plan.get('name'):
        return core.DB
    # (relative names: the simulated current directory is /main)
    return plan['name'] if plan['relative'] and plan['name'] not in ('-',) else '/main/' + plan['name']


def simulate(plan, ctx):
    src = core.source_symbol()
    rng = random.Random('power-%s' % plan['seed'])
    disk = WORLD.disk('main')
    extra = [['add', ['hot/1', 'a/1', 'x'], 3]]
    if plan['type'] == 'openers':
        extra += [op for c in plan['clients'] for op in c['ops'] if op[0] == 'add']
    voc = core.Vocab(plan['prefix'] + plan['after'] + extra, src)
    models, aspects = prepare(plan, ctx, rng, src)
    if plan['type'] == 'openers':
        return openers(plan, ctx, models, aspects, voc, rng)
    if plan['state'] == 'garbage':
        return garbage(plan, ctx, voc, rng)
    state = plan['state']
    for how, f, use in plan['opens']:
        what = 'opening%s a file that is %s%s' % (' (create command)' if how == 'cli' else '', state, ' with %s' % {k: v for k, v in f.items() if v is not None} if f else '')
        disk.set_fault(None)
        if f:
            if f['kind'] == 'interrupt':
                core.INT.arm(f['nth'], f.get('exc'))
            elif f['kind'] == 'lock':
                core.external_lock(disk, f['level'], f['seconds'])
            else:
                disk.set_fault({k: v for k, v in f.items() if k != 'mode'})
        hg, raised = do_open(how, plan)
        fired = disk.faulted or core.INT.fired
        if core.INT.fired:
            ctx.fault(core.INT.kind)
        core.INT.disarm()
        core.INT.fired = 0
        disk.busy_until = None
        dead = disk.dead
        disk.set_fault(None)
        ctx.cases += 1
        ctx.log(what, fired, type(raised).__name__)
        ctx.order(state, how, f and (f['kind'], f.get('call'), f.get('nth'), f.get('count'), f.get('mode')), type(raised).__name__)
        if raised is not None and not fired:
            raise Violation('exception', '%s raised %r' % (what, raised))
        if raised is not None:
            raised.__traceback__ = None
        if f and f['kind'] == 'crash':
            disk.crash(f['mode'], rng)
            core.close_hg(hg)
            continue
        if raised is None and hg is not None and use:
            models = usable(hg, models, aspects, voc, plan['after'][:1], what, ctx)
        core.close_hg(hg)
    ctx.cases += 1
    hg, raised = do_open('api', plan)
    if raised is not None:
        raise Violation('exception', 'the last, undisturbed opening raised %r' % raised)
    models = usable(hg, models, aspects, voc, plan['after'], 'the last, undisturbed opening', ctx)
    core.close_hg(hg)
    hg, raised = do_open('api', plan)
    if raised is not None:
        raise Violation('exception', 'opening again raised %r' % raised)
    models = usable(hg, models, aspects, voc, [], 'opening again', ctx)
    if core.DB not in disk.files:
        raise Violation('elsewhere', 'opening %r created no such file, but %s' % (path_of(plan), sorted(disk.files)))
    ctx.state(models[0].signature())


def do_open(how, plan):
    path = path_of(plan)
    if how == 'cli':
        res = cli(['--backend', 'sqlite', '--db', path, 'create'])
        if res.exception is None or (isinstance(res.exception, SystemExit) and res.exit_code == 0):
            return None, None
        return None, res.exception if not isinstance(res.exception, SystemExit) else RuntimeError('exit code %s' % res.exit_code)
    if how == 'cli-thread':
        # click's test runner redirects the standard streams of the whole process
        try:
            command_line().main(args=['--backend', 'sqlite', '--db', path, 'create'], standalone_mode=False)
            return None, None
        except (Exception, KeyboardInterrupt) as e:
            return None, e
    try:
        return core.new_hg(path), None
    except (Exception, KeyboardInterrupt) as e:
        return None, e


def usable(hg, models, aspects, voc, ops, what, ctx):
    """Contents are intact, operations work."""
    ctx.cases += 1
    try:
        good, why = [], None
        for m in models:
            bad = check_model(hg, m, voc, aspects)
            if bad is None:
                good.append(m)
            why = why or bad
        for v in voc.entities:
            d = hg.degree(v)
            if isinstance(d, bool) or not isinstance(d, int):
                raise Violation('unusable', 'after %s, the degree of %s is %r' % (what, core.show(v), d))
        if not good:
            raise Violation('contents', 'after %s: %s' % (what, why))
        for op in ops + [['add', ['probe/1', 'again/1', 'x'], 77]]:
            try:
                got = run_op(hg, op)
            except core.Planned:
                got = None
            for m in good:
                want = model_op(m, op)
            if op[0] in ('exists', 'pat'):
                bad = core.agree(op, got, want)
                if bad:
                    raise Violation('unusable', 'after %s: %s' % (what, bad))
        bad = check_model(hg, good[0], voc, tuple(a for a in aspects if a != 'ts'))
        if bad:
            raise Violation('unusable', 'after %s and further operations: %s' % (what, bad))
        if not hg.exists(('probe/1', 'again/1', 'x')):
            raise Violation('unusable', 'after %s, an added edge does not exist' % what)
        list(hg.f_all(lambda v: v))
    except Violation:
        raise
    except Exception as e:
        raise Violation('unusable', 'after %s, using the hypergraph raised %r' % (what, e))
    return good


def garbage(plan, ctx, voc, rng):
    disk = WORLD.disk('main')
    data = bytes(disk.files[core.DB].data)
    for how, f, use in plan['opens']:
        hg, raised = do_open(how, plan)
        ctx.cases += 1
        ctx.log('garbage', how, type(raised).__name__)
        if raised is None:
            raise Violation('dishonest', 'opening a file that is no database raised no error')
        raised.__traceback__ = None
        now = disk.files.get(core.DB)
        if now is None or bytes(now.data) != data:
            raise Violation('contents', 'opening a file that is no database changed it')


def openers(plan, ctx, models, aspects, voc, rng):
    disk = WORLD.disk('main')
    data = bytes(disk.files[core.DB].data) if plan['state'] == 'garbage' else None
    srng = random.Random('sched-%s' % plan['seed'])

    def die():
        disk.dead = True
        ctx.fault('crash_concurrent_%s' % plan['crash']['mode'])
    s = Scheduler(ctx, srng, plan['choices'], stall=plan['stall'], dt=plan['dt'], sticky=plan['sticky'], crash_step=plan['crash']['step'] if plan['crash'] else None, on_crash=die)
    ctx.sched = s
    done, lost, hgs = [], [], []

    def body(c):
        hg = None
        for op in plan['clients'][c]['ops']:
            s.pause()
            if s.killed:
                return
            if op[0] == 'open':
                h, raised = do_open(op[1] + '-thread' if op[1] == 'cli' else op[1], plan)
                if s.killed or disk.dead:
                    return
                if raised is not None:
                    raised.__traceback__ = None
                    if data is not None and not locked(raised):
                        return
                    if locked(raised) and s.stalled:
                        return
                    raise Violation('exception', 'opening a file that is %s, concurrently, raised %r' % (plan['state'], raised))
                if data is not None:
                    raise Violation('dishonest', 'opening a file that is no database raised no error')
                if h is not None:
                    hg = h
                    hgs.append(h)
                ctx.log('opened', c)
            elif hg is not None:
                lost.append(op)
                try:
                    run_op(hg, op)
                except Exception as e:
                    if s.killed or disk.dead:
                        return
                    if locked(e) and s.stalled:
                        lost.remove(op)
                        continue
                    raise Violation('unusable', 'after opening concurrently, %s raised %r' % (show_op(op), e))
                if s.killed or disk.dead:
                    return
                lost.remove(op)
                done.append(op)
                ctx.log('added', c)
    core.quiet(s.run, [body] * len(plan['clients']))
    ctx.order([ev for ev in ctx.events if ev[0] == 'run'])
    for h in hgs:
        core.close_hg(h)
    if s.killed:
        disk.crash(plan['crash']['mode'], srng)
    if data is not None:
        if bytes(disk.files[core.DB].data) != data:
            raise Violation('contents', 'opening a file that is no database changed it')
        return
    for m in models:
        for op in done:
            model_op(m, op)
    cands = models
    for op in lost:
        more = [m.copy() for m in cands]
        for m in more:
            model_op(m, op)
        cands = cands + more
    hg, raised = do_open('api', plan)
    if raised is not None:
        raise Violation('exception', 'opening after concurrent openings raised %r' % raised)
    # the order of the clients' adds is not known: their shared symbols' timestamps are not checked
    aspects = tuple(a for a in aspects if a != 'ts')
    usable(hg, cands, aspects, voc, [], 'concurrent openings', ctx)
    core.close_hg(hg)


