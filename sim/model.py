"""Reference model of the hypergraph: sets and counters, nothing else."""
from sim.values import key, is_edge, root_of, is_url

UNKNOWN = 'unknown'


class Model(object):
    __slots__ = ('edges', 'deg', 'ts', 'ents', 'source')

    def __init__(self, source='src/1'):
        self.edges = {}   # key -> edge
        self.deg = {}     # key -> degree, of every known vertex
        self.ts = {}      # key -> timestamp or UNKNOWN
        self.ents = {}    # key -> entity
        self.source = source

    def copy(self):
        m = Model(self.source)
        m.edges = dict(self.edges)
        m.deg = dict(self.deg)
        m.ts = dict(self.ts)
        m.ents = dict(self.ents)
        return m

    def signature(self):
        return (frozenset(self.edges), frozenset(self.deg.items()), frozenset(self.ts.items()))

    # -- updates ---------------------------------------------------------------------------------------
    def add(self, edge, ts=-1):
        k = key(edge)
        if k in self.edges:
            return
        for v in edge:
            kv = key(v)
            if kv in self.deg:
                self.deg[kv] += 1
            else:
                self.deg[kv] = 1
                if self.ts.get(kv) != UNKNOWN:
                    self.ts[kv] = ts
                self.ents[kv] = v
        self.deg[k] = self.deg.get(k, 0)
        self.ts[k] = ts
        self.ents[k] = edge
        self.edges[k] = edge

    def remove(self, edge):
        k = key(edge)
        if k not in self.edges:
            return
        for v in edge:
            self.deg[key(v)] -= 1
        del self.edges[k]
        if self.deg[k] == 0:
            del self.deg[k]
            del self.ts[k]
            del self.ents[k]
        else:
            self.ts[k] = UNKNOWN  # removed as an edge, still used as an entity: unspecified

    def destroy(self):
        self.edges = {}
        self.deg = {}
        self.ts = {}
        self.ents = {}

    def add_belief(self, source, edges, ts=-1):
        for e in edges:
            self.add(e, ts)
            self.add((self.source, e, source), ts)

    def remove_belief(self, source, edge):
        self.remove((self.source, edge, source))
        if not self.sources(edge):
            self.remove(edge)

    def remove_by_pattern(self, pattern):
        gone = self.pattern(pattern)
        for e in gone:
            self.remove(e)
        # the order of removal is not specified; it matters for edges that occur in one another
        for e in gone:
            if any(key(e) in key(f) for f in gone):
                self.ts[key(e)] = UNKNOWN

    # -- reads --------------------------------------------------------------------------------------------
    def exists(self, edge):
        return key(edge) in self.edges

    def pattern(self, pattern):
        out = []
        for k in self.edges:
            if len(k) == len(pattern) and all(p is None or key(p) == x for p, x in zip(pattern, k)):
                out.append(self.edges[k])
        return out

    def star(self, v):
        kv = key(v)
        return [e for k, e in self.edges.items() if kv in k]

    def roots(self, root):
        out = set()
        for e in self.edges.values():
            for v in e:
                if isinstance(v, str) and not is_url(v) and '/' in v and root_of(v) == root:
                    out.add(v)
        return out

    def degree(self, v):
        return self.deg.get(key(v), 0)

    def timestamp(self, v):
        return self.ts.get(key(v), -1)

    def sources(self, edge):
        out = []
        for e in self.edges.values():
            if len(e) == 3 and key(e[0]) == key(self.source) and key(e[1]) == key(edge):
                out.append(e[2])
        return out
