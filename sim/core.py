"""Shared by all scenarios: violations, run context, applying operations to the code and to the model, observing."""
import collections
import gc
import hashlib
import io
import json
import random
import sqlite3
import sys

from sim import vfs
from sim.seams import INT
from sim.model import Model, UNKNOWN
from sim.values import key, tup, lst, is_edge, is_url, root_of, show

WORLD = vfs.WORLD
DB = '/main/gb.db'


class Violation(Exception):
    def __init__(self, kind, msg, ident=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.ident = ident or kind   # what known_findings entries refer to


class HarnessError(Exception):
    pass


class Unusable(Exception):
    """The plan does not make sense (only while minimising)."""


class Planned(Exception):
    """Raised by batch functions that the plan says raise."""


class Ctx(object):
    """One simulated execution."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.faults = collections.Counter()
        self.events = []
        self.hash = hashlib.blake2b(digest_size=12)
        self.sim_time = 0.0
        self.cases = 0            # oracle evaluations
        self.states = set()
        self.orders = set()
        WORLD.reset(random.Random('world-%s' % seed))
        INT.reset()
        random.seed('process-%s' % seed)

    def log(self, *ev):
        self.events.append(ev)
        self.hash.update(repr(ev).encode('utf-8', 'backslashreplace'))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def order(self, *what):
        self.orders.add(hashlib.blake2b(repr(what).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest())

    def state(self, what):
        self.states.add(hashlib.blake2b(repr(what).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest())

    def finish(self):
        for d in WORLD.disks.values():
            for k, n in d.fired.items():
                self.faults[k] += n
        self.sim_time += max(0.0, WORLD.now - 1.5e9)
        gc.collect()
        errs = [e for e in WORLD.errors if 'Hang' not in e]
        WORLD.errors = []
        if errs:
            raise HarnessError(errs[0])


def new_hg(db=None):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'sqlite', 'db': db or DB})


def raw(db=None, timeout=0):
    from sim.seams import REAL
    return REAL['connect'](db or DB, timeout=timeout, isolation_level=None, check_same_thread=False)


def external_lock(disk, level, seconds):
    """Another process takes a lock (and, as any process does first, plays back a hot journal if there is one)."""
    from sim import vfs
    if level < vfs.EXCLUSIVE and any(p.endswith('-journal') for p in disk.files):
        try:
            c = raw(DB if disk.name == 'main' else '/%s/gb.db' % disk.name)
            try:
                c.execute('SELECT COUNT(*) FROM sqlite_master').fetchall()
            finally:
                c.close()
        except sqlite3.Error:
            pass
    disk.busy_level = level
    disk.busy_until = WORLD.now + seconds


def close_hg(hg):
    """Closes the connection of a hypergraph, as leaving the process does (there is no close method)."""
    b = getattr(hg, 'backend', None)
    c = getattr(b, 'conn', None)
    if c is not None and isinstance(c, sqlite3.Connection):
        try:
            c.close()
        except Exception:
            pass


def quiet(f, *args):
    """Calls f with standard output discarded."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return f(*args)
    finally:
        sys.stdout = old


# -- operations ------------------------------------------------------------------------------------------------
# JSON lists: [name, args...]; entities with lists for edges
WRITES = ('add', 'addm', 'rm', 'rmm', 'destroy', 'belief', 'beliefm', 'unbelief', 'rmpat', 'batch')
READS = ('exists', 'pat', 'star', 'roots', 'deg', 'ts', 'sources', 'all')


def writes(op):
    return op[0] in WRITES


def canon_set(res):
    """A query result as a sorted list of keys; numbers that Python considers equal are one element of a set."""
    return sorted(set(pykey(e) for e in res))


def pykey(e):
    if is_edge(e):
        return '(%s)' % ' '.join(pykey(x) for x in e)
    if isinstance(e, float) and e == int(e):
        return 'n:%d' % int(e)
    if isinstance(e, (int, float)):
        return 'n:%r' % e
    return key(e)


def materialize(op, res):
    name = op[0]
    if name == 'exists':
        return bool(res)
    if name in ('pat', 'star', 'roots', 'sources'):
        return list(res)
    return res


def _edge1(t, edge):
    """Single form of an edge argument; the API takes a first element that is an edge for the multiple form."""
    return [edge] if is_edge(edge[0]) else edge


def several(edges):
    """The multiple form of an edge argument, a list or a tuple."""
    es = [tup(e) for e in edges]
    return tuple(es) if len(es) % 2 else es


def taken(res):
    """A copy of a result, which the caller then changes: it is the caller's."""
    out = list(res)
    if isinstance(res, (set, list)):
        res.clear()
    return out


def run_op(t, op, hg=None, between=None):
    """Applies an operation.  t: a HyperGraph or a backend (inside a batch); hg: the hypergraph (beliefs)."""
    if hg is None:
        hg = t
    name = op[0]
    if name == 'add':
        e = tup(op[1])
        if op[2] == -1:
            t.add(_edge1(t, e))
        else:
            t.add(_edge1(t, e), op[2])
    elif name == 'addm':
        es = several(op[1])
        if op[2] == -1:
            t.add(es)
        else:
            t.add(es, op[2])
        if isinstance(es, list):
            es.clear()
    elif name == 'rm':
        t.remove(_edge1(t, tup(op[1])))
    elif name == 'rmm':
        t.remove(several(op[1]))
    elif name == 'destroy':
        t.destroy()
    elif name == 'belief':
        hg.add_belief(tup(op[1]), _edge1(t, tup(op[2])), op[3])
    elif name == 'beliefm':
        hg.add_belief(tup(op[1]), several(op[2]), op[3])
    elif name == 'unbelief':
        hg.remove_belief(tup(op[1]), tup(op[2]))
    elif name == 'rmpat':
        hg.remove_by_pattern(tup(op[1]))
    elif name == 'batch':
        out = []

        def fun(i, sub):
            def f(b):
                if between is not None:
                    between(i)
                if sub[0] == 'raise':
                    raise Planned('planned')
                if sub[0] == 'hg':
                    out.append(run_op(hg, sub[1], hg))
                else:
                    out.append(run_op(b, sub, hg))
            return f
        t.batch_exec([fun(i, sub) for i, sub in enumerate(op[1])])
        return out
    elif name == 'exists':
        return bool(t.exists(tup(op[1])))
    elif name == 'pat':
        return taken(t.pattern2edges(tup(op[1])))
    elif name == 'star':
        return taken(t.star(tup(op[1])))
    elif name == 'roots':
        return taken(t.symbols_with_root(op[1]))
    elif name == 'deg':
        return t.degree(tup(op[1]))
    elif name == 'ts':
        return t.timestamp(tup(op[1]))
    elif name == 'sources':
        return taken(hg.sources(tup(op[1])))
    elif name == 'all':
        return list(t.f_all(lambda v: (v['vertex'], v['degree'])))
    else:
        raise Unusable(name)
    return None


def model_op(m, op):
    """Applies an operation to the model and returns the expected result."""
    if op[0] == 'hg':
        op = op[1]
    name = op[0]
    if name == 'add':
        m.add(tup(op[1]), op[2])
    elif name == 'addm':
        for e in op[1]:
            m.add(tup(e), op[2])
    elif name == 'rm':
        m.remove(tup(op[1]))
    elif name == 'rmm':
        for e in op[1]:
            m.remove(tup(e))
    elif name == 'destroy':
        m.destroy()
    elif name == 'belief':
        m.add_belief(tup(op[1]), [tup(op[2])], op[3])
    elif name == 'beliefm':
        m.add_belief(tup(op[1]), [tup(e) for e in op[2]], op[3])
    elif name == 'unbelief':
        m.remove_belief(tup(op[1]), tup(op[2]))
    elif name == 'rmpat':
        m.remove_by_pattern(tup(op[1]))
    elif name == 'batch':
        out = []
        save = m.copy()
        for sub in op[1]:
            if sub[0] == 'raise':
                m.edges, m.deg, m.ts, m.ents = save.edges, save.deg, save.ts, save.ents
                return out
            out.append(model_op(m, sub))
        return out
    elif name == 'exists':
        return m.exists(tup(op[1]))
    elif name == 'pat':
        return m.pattern(tup(op[1]))
    elif name == 'star':
        return m.star(tup(op[1]))
    elif name == 'roots':
        return m.roots(op[1])
    elif name == 'deg':
        return m.degree(tup(op[1]))
    elif name == 'ts':
        return m.timestamp(tup(op[1]))
    elif name == 'sources':
        return m.sources(tup(op[1]))
    elif name == 'all':
        return m.copy()
    return None


def planned_raise(op):
    """Does the plan itself make this operation raise?"""
    if op[0] == 'hg':
        op = op[1]
    return op[0] == 'batch' and any(s[0] == 'raise' or planned_raise(s) for s in op[1])


def agree(op, got, want):
    """None, or what is wrong with the result of a read (or of the reads in a batch)."""
    if op[0] == 'hg':
        op = op[1]
    name = op[0]
    if name == 'batch':
        if len(got) != len(want):
            return 'the batch executed %d functions instead of %d' % (len(got), len(want))
        for sub, g, w in zip(op[1], got, want):
            bad = agree(sub, g, w)
            if bad:
                return 'in a batch, ' + bad
        return None
    if name in ('exists', 'deg'):
        if name == 'deg' and (isinstance(got, bool) or not isinstance(got, int)):
            return '%s gave %r' % (show_op(op), got)
        return None if got == want else '%s gave %r, expected %r' % (show_op(op), got, want)
    if name == 'ts':
        return None if want == UNKNOWN or got == want else '%s gave %r, expected %r' % (show_op(op), got, want)
    if name in ('pat', 'star', 'roots', 'sources'):
        if len(got) != len(set(pykey(e) for e in got)):
            return '%s gave duplicates: %s' % (show_op(op), brief(got))
        keys = set(key(e) for e in want)
        for e in got:
            if key(e) not in keys:
                return '%s gave %s, which it should not (expected %s)' % (show_op(op), show(e), brief(want))
        if canon_set(got) != canon_set(want):
            return '%s gave %s, expected %s' % (show_op(op), brief(got), brief(want))
        return None
    if name == 'all':
        return agree_all(got, want)
    return None


def agree_all(got, m, seen=None):
    """Is got = [(vertex, degree)...] a traversal of model state m?"""
    need = set(m.edges)
    for e in m.edges.values():
        for v in e:
            need.add(key(v))
    have = set()
    for v, d in got:
        k = key(v)
        if k in have:
            return 'traversal yields %s twice' % show(v)
        have.add(k)
        if d != m.degree(v):
            return 'traversal yields %s with degree %r, expected %r' % (show(v), d, m.degree(v))
        if k not in need and seen is not None and k not in seen:
            return 'traversal yields %s, which was never stored' % show(v)
    if not need <= have:
        return 'traversal misses %s' % sorted(need - have, key=repr)[:3]
    return None


def show_op(op):
    if op[0] == 'hg':
        return 'hg.' + show_op(op[1])
    name = op[0]
    if name == 'batch':
        return 'batch[%s]' % '; '.join(show_op(s) for s in op[1])
    if name in ('addm', 'rmm'):
        return '%s%s' % (name, ' '.join(show(tup(e)) for e in op[1])) + (' @%s' % op[2] if name == 'addm' else '')
    args = []
    for a in op[1:]:
        args.append(show(tup(a)) if isinstance(a, list) else str(a))
    return '%s(%s)' % (name, ', '.join(args))


def brief(es, n=4):
    es = sorted((show(e) for e in es))
    return '{%s%s}' % (', '.join(es[:n]), ', ... %d in all' % len(es) if len(es) > n else '')


# -- vocabulary of a plan --------------------------------------------------------------------------------------------
def op_edges(op, source_symbol):
    """Edges that an operation can bring into existence."""
    if op[0] == 'hg':
        op = op[1]
    name = op[0]
    if name in ('add', 'rm', 'exists', 'sources'):
        yield tup(op[1])
    elif name in ('addm', 'rmm'):
        for e in op[1]:
            yield tup(e)
    elif name in ('belief', 'unbelief'):
        e = tup(op[2])
        yield e
        yield (source_symbol, e, tup(op[1]))
    elif name == 'beliefm':
        for x in op[2]:
            e = tup(x)
            yield e
            yield (source_symbol, e, tup(op[1]))
    elif name == 'batch':
        for s in op[1]:
            for e in op_edges(s, source_symbol):
                yield e


class Vocab(object):
    """Everything a plan can mention: what is observed."""

    def __init__(self, ops, source_symbol):
        self.edges = []
        self.entities = []
        self.roots = []
        self.patterns = []
        self.lengths = set([2, 3, 4])
        ke, kv, kr = set(), set(), set()

        def entity(v):
            k = key(v)
            if k in kv:
                return
            kv.add(k)
            self.entities.append(v)
            if is_edge(v):
                for x in v:
                    entity(x)
            elif isinstance(v, str) and not is_url(v):
                r = root_of(v)
                if r and r not in kr and not r.startswith('http'):
                    kr.add(r)
                    self.roots.append(r)
        for op in ops:
            for e in op_edges(op, source_symbol):
                if key(e) in ke:
                    continue
                ke.add(key(e))
                self.edges.append(e)
                entity(e)
                self.lengths.add(len(e))
        for e in self.edges[:12]:
            for i in range(len(e)):
                self.patterns.append(tuple(None if j == i else x for j, x in enumerate(e)))
            if len(e) > 2:
                self.patterns.append((None,) + e[1:2] + (None,) * (len(e) - 2))
        self.keys = kv | ke


def observe(hg, voc, deep=True):
    """Everything observable, as comparable data."""
    o = {}
    o['exists'] = [hg.exists(e) for e in voc.edges]
    o['length'] = {n: canon_set(hg.pattern2edges((None,) * n)) for n in sorted(voc.lengths)}
    if deep:
        o['pattern'] = [canon_set(hg.pattern2edges(p)) for p in voc.patterns]
    o['star'] = [canon_set(hg.star(v)) for v in voc.entities]
    o['roots'] = [sorted(hg.symbols_with_root(r)) for r in voc.roots]
    o['degree'] = [hg.degree(v) for v in voc.entities]
    o['ts'] = [hg.timestamp(v) for v in voc.entities]
    o['all'] = sorted((pykey2(v), d) for v, d in hg.f_all(lambda m: (m['vertex'], m['degree'])))
    return o


def pykey2(v):
    return repr(key(v))


def obs_diff(a, b, voc, la='before', lb='after'):
    """First difference between two observations, as text."""
    for asp in ('exists', 'length', 'pattern', 'star', 'roots', 'degree', 'ts', 'all'):
        if a.get(asp) == b.get(asp):
            continue
        if asp in ('exists',):
            for e, x, y in zip(voc.edges, a[asp], b[asp]):
                if x != y:
                    return 'exists%s is %s, %s: %s' % (show(e), x, lb, y)
        if asp in ('degree', 'ts', 'star'):
            for e, x, y in zip(voc.entities, a[asp], b[asp]):
                if x != y:
                    return '%s of %s is %s, %s: %s' % (asp, show(e), x, lb, y)
        return '%s is %s, %s: %s' % (asp, str(a.get(asp))[:200], lb, str(b.get(asp))[:200])
    return None


def check_model(hg, m, voc, aspects, seen=None, final=True):
    """Compares the code with the model, at a quiescent point.  Returns text or None."""
    def one(op):
        return agree(op, run_op(hg, op), model_op(m, op))
    if 'exists' in aspects:
        for e in voc.edges:
            bad = one(['exists', e])
            if bad:
                return bad
    if 'content' in aspects:
        for n in sorted(voc.lengths):
            if n > 4 and not final:
                continue
            bad = one(['pat', [None] * n])
            if bad:
                return bad
    if 'pattern' in aspects:
        for p in voc.patterns:
            bad = one(['pat', p])
            if bad:
                return bad
    if 'star' in aspects:
        for v in voc.entities:
            bad = one(['star', v])
            if bad:
                return bad
    if 'roots' in aspects:
        for r in voc.roots:
            bad = one(['roots', r])
            if bad:
                return bad
    if 'degree' in aspects:
        for v in voc.entities:
            bad = one(['deg', v])
            if bad:
                return bad
    if 'ts' in aspects:
        for v in voc.entities:
            bad = one(['ts', v])
            if bad:
                return bad
    if 'sources' in aspects:
        for e in voc.edges:
            bad = one(['sources', e])
            if bad:
                return bad
    if 'all' in aspects:
        bad = agree_all(run_op(hg, ['all']), m, seen)
        if bad:
            return bad
    return None


def source_symbol():
    import gb.hypergraph.constants as const
    return const.source


def same_sources(model, hg, voc):
    for e in voc.edges:
        bad = agree(['sources', e], run_op(hg, ['sources', e]), model.sources(e))
        if bad:
            return bad
    return None
