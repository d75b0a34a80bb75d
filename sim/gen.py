"""Generation of operations and histories (plans are JSON)."""
from sim.values import Pool, SOURCES, is_edge, lst

TIMES = [0, 1, 5, 100, 1499999999, 1500000000, 10 ** 12, 2 ** 31, 2 ** 62, 2 ** 63 - 1, -2, -2 ** 63]


class Gen(object):
    """Operation generator with per-run (swarm) weights."""

    def __init__(self, rng, pool, writes=None, reads=None, compound_first=True):
        self.rng = rng
        self.pool = pool
        self.sources = rng.sample(SOURCES, rng.randint(1, 3))
        base = {'add': 6, 'addm': 2, 'rm': 4, 'rmm': 1, 'destroy': 0.3, 'belief': 2, 'beliefm': 1, 'unbelief': 2,
                'rmpat': 0.7, 'batch': 0.7}
        rb = {'exists': 2, 'pat': 2, 'star': 2, 'roots': 1, 'deg': 2, 'ts': 1, 'sources': 1, 'all': 0.7}
        self.w = self.swarm(base, writes)
        self.r = self.swarm(rb, reads)
        self.timed = rng.random() < 0.7
        self.added = []

    def swarm(self, base, allowed):
        r = self.rng
        names = [n for n in base if allowed is None or n in allowed]
        w = {n: base[n] * r.choice((0, 0.3, 1, 1, 1, 3)) for n in names}
        if not any(w.values()):
            w = {n: base[n] for n in names}
        return w

    def ts(self):
        r = self.rng
        if not self.timed or r.random() < 0.3:
            return -1
        return r.choice(TIMES) if r.random() < 0.6 else r.randrange(1, 1000)

    def some_edge(self, p_known=0.7):
        if self.added and self.rng.random() < p_known:
            return self.rng.choice(self.added)
        return self.pool.edge()

    def facts(self):
        return self.some_edge(0.5)

    def edges(self):
        r = self.rng
        n = r.choice((1, 2, 2, 3, 3, 4, 6))
        out = [self.pool.edge() for _ in range(n)]
        if r.random() < 0.2:
            out.append(out[0])
        return [lst(e) for e in out]

    def choose(self, w):
        r = self.rng
        x = r.random() * sum(w.values())
        for n in sorted(w):
            x -= w[n]
            if x < 0:
                return n
        return sorted(w)[-1]

    def write(self, depth=0, only=None):
        r = self.rng
        w = self.w if only is None else {n: self.w.get(n) or 1 for n in only}
        name = self.choose(w)
        if name == 'batch' and depth >= 2:
            name = 'add' if 'add' in w else 'belief' if 'belief' in w else [x for x in sorted(w) if x != 'batch'][0]
        if name == 'add':
            e = self.pool.edge()
            self.added.append(e)
            return ['add', lst(e), self.ts()]
        if name == 'addm':
            es = self.edges()
            self.added.extend(tuple_edges(es))
            return ['addm', es, self.ts()]
        if name == 'rm':
            return ['rm', lst(self.some_edge(0.85))]
        if name == 'rmm':
            return ['rmm', [lst(self.some_edge(0.85)) for _ in range(r.choice((1, 2, 3)))]]
        if name == 'destroy':
            return ['destroy']
        if name == 'belief':
            e = self.pool.edge()
            self.added.append(e)
            return ['belief', r.choice(self.sources), lst(e), self.ts()]
        if name == 'beliefm':
            es = self.edges()
            self.added.extend(tuple_edges(es))
            return ['beliefm', r.choice(self.sources), es, self.ts()]
        if name == 'unbelief':
            return ['unbelief', r.choice(self.sources), lst(self.some_edge(0.9))]
        if name == 'rmpat':
            return ['rmpat', lst(self.pool.pattern())]
        if name == 'batch':
            return ['batch', self.funs(depth)]
        raise ValueError(name)

    def funs(self, depth=0, n=None, reads=0.3):
        r = self.rng
        out = []
        for _ in range(n or r.choice((1, 2, 3, 3, 4, 6))):
            op = self.read() if r.random() < reads else self.write(depth + 1)
            if op[0] == 'rmpat' or r.random() < 0.3:
                op = ['hg', op]   # rmpat exists on the hypergraph only
            out.append(op)
        return out

    def watch(self):
        """The same reads before, between and after writes that change their results."""
        r = self.rng
        e = self.some_edge(0.9)
        v = r.choice(list(e) + [e])
        if 'add' not in self.w or not is_edge(e):
            s = r.choice(self.sources)
            on, off, reads = ['belief', s, lst(e), self.ts()], ['unbelief', s, lst(e)], [['sources', lst(e)], ['exists', lst(e)]]
            on2 = ['belief', s, lst(e), self.ts()]
        else:
            on, off, on2 = ['add', lst(e), self.ts()], ['rm', lst(e)], ['add', lst(e), self.ts()]
            reads = [['exists', lst(e)], ['deg', lst(v)], ['ts', lst(v)], ['ts', lst(e)], ['star', lst(v)], ['pat', [None if r.random() < 0.6 else lst(x) for x in e]]]
        known = [x for x in reads if x[0] in self.r] or [['exists', lst(e)]]
        look = [r.choice(known) for _ in range(r.choice((1, 2)))]
        out = [on] if r.random() < 0.6 else []
        out += look + [off] + (look if r.random() < 0.5 else [])
        if r.random() < 0.7:
            out += [on2] + look
        return out

    def read(self):
        r = self.rng
        name = self.choose(self.r)
        if name in ('exists', 'sources'):
            return [name, lst(self.some_edge())]
        if name == 'pat':
            return ['pat', lst(self.pool.pattern())]
        if name in ('star', 'deg', 'ts'):
            v = self.pool.any_entity()
            if r.random() < 0.1:
                v = r.choice(self.sources)
            return [name, lst(v)]
        if name == 'roots':
            x = self.pool.root()
            while x.startswith('http'):
                x = r.choice(('a', 'b', 'graphbrain'))
            return ['roots', x]
        return ['all']

    def history(self, n, reads=0.4):
        return [self.read() if self.rng.random() < reads else self.write() for _ in range(n)]


def big_op(rng, r0='big'):
    """An operation on many edges: ([operations before it], operation)."""
    n = rng.choice((101, 130, 257, 300, 513, 520) if rng.random() < 0.85 else (700, 1001, 1030))
    k = rng.choice((2, 2, 3))
    if k == 3:
        n = min(n, 300)
    es = [[r0 + '/1', 'x/%d' % i] + ['y/%d' % (i % 3)] * (k - 2) for i in range(n)]
    rng.shuffle(es)
    ts = rng.choice((-1, 5, 100))
    x = rng.random()
    if x < 0.35:
        return [['addm', es[n - 3:], 1]] if rng.random() < 0.5 else [], ['addm', es, ts]
    if x < 0.5:
        return [], ['beliefm', 'mary/1', [e[:2] for e in es], ts]
    if x < 0.65:
        return [['addm', es, ts]], ['rmm', es[:rng.choice((n, n - 1))]]
    if x < 0.8:
        return [['addm', es, ts]], ['rmpat', [r0 + '/1', None] + [None] * (k - 2)]
    if x < 0.85:
        return [['addm', es, ts]], ['destroy']
    return [], ['batch', [['add', e, ts] for e in es]]


def tuple_edges(es):
    from sim.values import tup
    return [tup(e) for e in es]


def pool_for(rng, heavy=False, **kw):
    """Pools for fault runs keep edges short: the number of storage calls grows with the factorial."""
    kw.setdefault('maxlen', 5 if heavy else 4)
    return Pool(rng, **kw)
