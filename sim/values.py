"""Entities: canonical keys, JSON form, generation."""
import math

LONG = 'l' * 700
SYMBOLS = [
    'a', 'a/1', 'a/12', 'a/1/2', 'ab', 'ab/1', 'A/1', '~a/1', '~a', 'b/1', 'b/2', 'is', 'is/1', 'isa', 'size',
    'mary/1', 'john/1', 'graphbrain/1', 'graphbrain/2', 'graph', 'great/1', 'x', 'x.1', 'x/', '/x', 'c_d/3',
    'http://graphbrain.org', 'https://a.b/c?x=1&y=2', 'http://graphbrain.org/a', 'caf\u00e9/1', '\u65e5\u672c/1', '\u65e5', '\U0001d49c/1',
    '\u0663/1', '-a', 'a-', '7up', '1-2', '1.2.3', 'v1.0', "o'neil/1", '"q"/1', '%s', '?', ':x', 'a;b', '\\n', '%',
    '--', '-', '.', 'a+b', 'z|w', '[k]', '{k}', '<t>', '#1', '$1', '^', '_', '@u', '=', '!', '*', '`', 'a,b', 'src', 'pos/gb',
    'graphbrain/10', 'graphbrain', 'z/1', 'y/1', 'w/1', 'is/2', 'B/1', 'b', 'k=v', '~', '~b/1', 'a~',
    '\u00b2', 'x\u00b2', '\u2460', '\u0663', '-\u0967', '\u0663.\u0664', '\uff17', '1\u00b2', '\u00bd', 'inf', 'nan', '-inf', 'infinity', '1e', '1_000', '+5', '+1.5', '1e5', '0x1F', '5-', '1,5', '--5', 'True', 'None',
    'cafe\u0301/1', 'CAF\u00c9/1', '\u00df', 'ss', '\ud7ff', '\U0010ffff', 'a/\U0010ffff', '\ufffd', '\ufeffa', '\u200b', '\x00', 'a\x00b', '\x01', '\x7f', LONG, LONG + '/1', LONG + '/2', LONG[:255], LONG[:256], LONG[:255] + '/1',
    'null', 'None/1', 'a/0', 'a/01', 'a//1', '//', 'a/1/', '\\', '\\\\', "''", '""', '%%', '_a', 'a_', '\u0131', 'I', 'i', '\u212b', '\u00c5',
]
PLAIN = ['a/1', 'a/12', 'a/2', 'ab/1', 'b/1', 'b/2', 'is', 'is/1', 'size', 'mary/1', 'john/1', 'graphbrain/1', 'great/1', 'x', 'z/1']
NUMBERS = [0, 1, 7, 7.0, -7, -7.5, 12, 71, 10 ** 12, 2 ** 70, 0.1, 0.5, -0.25, 1e-7, 2.5e-10, 1e16, 1.5e20, -1e-5, 123456789.125, 1.0, 70.5, -1, 2 ** 53 + 1, 2 ** 60 + 1, -2 ** 63 - 1, 10 ** 30 + 7, 0.1 + 0.2, 123456.7890123, 1.2345678901234567e-19, 5e-324, -1.7976931348623157e308, -0.0]
SOURCES = ['mary/1', 'john/1', 'wordnet/1', 'a/1', 'ann/1']
POISON = ['\ud800', 'a\ud800/1']


def key(e):
    """Canonical hashable identity of an entity (distinguishes 7, 7.0 and lists from nothing)."""
    if isinstance(e, (list, tuple)):
        return tuple(key(x) for x in e)
    if isinstance(e, bool):
        return 'b:%s' % e
    if isinstance(e, str):
        return 's:' + e
    if isinstance(e, int):
        return 'i:%d' % e
    if isinstance(e, float):
        return 'f:%r' % e
    return 'x:%r' % (e,)


def tup(e):
    """JSON value -> entity (lists become tuples, at all levels)."""
    if isinstance(e, (list, tuple)):
        return tuple(tup(x) for x in e)
    return e


def lst(e):
    """Entity -> JSON value."""
    if isinstance(e, (list, tuple)):
        return [lst(x) for x in e]
    return e


def is_edge(e):
    return isinstance(e, (list, tuple))


def root_of(s):
    return s.split('/')[0]


def is_url(s):
    return s[:7] == 'http://' or s[:8] == 'https://'


def show(e):
    if is_edge(e):
        return '(%s)' % ' '.join(show(x) for x in e)
    return repr(e) if not isinstance(e, str) else e


class Pool(object):
    """A per-run vocabulary: small, so that histories collide, and swarm-configured."""

    def __init__(self, rng, nasty=True, numbers=True, nested=True, maxlen=5, nsym=None, nedges=None, compound_first=True, odd=True):
        self.rng = rng
        k = nsym or rng.randint(3, 9)
        src = SYMBOLS if (nasty and rng.random() < 0.6) else PLAIN
        self.symbols = rng.sample(src, min(k, len(src)))
        if not odd:
            # neither very long nor NUL
            self.symbols = [s for s in self.symbols if len(s) < 200 and '\0' not in s] or ['a/1']
        self.numbers = rng.sample(NUMBERS, rng.randint(0, 3)) if numbers else []
        if 7 in self.numbers and rng.random() < 0.7 and 7.0 not in [n for n in self.numbers if isinstance(n, float)]:
            self.numbers.append(7.0)
        self.nested = nested and rng.random() < 0.8
        self.compound_first = compound_first and rng.random() < 0.3
        self.lengths = rng.choice([[3], [2, 3], [3, 3, 3, 4], [2, 3, 4], [2, 3, 3, 4, 5], [4, 5], [3, 3, 4, 5, 6]])
        self.lengths = [min(n, maxlen) for n in self.lengths]
        self.edges = []
        n = nedges or rng.randint(2, 9)
        seen = set()
        for _ in range(n * 3):
            e = self.new_edge()
            if key(e) not in seen:
                seen.add(key(e))
                self.edges.append(e)
            if len(self.edges) >= n:
                break
        if self.numbers and rng.random() < 0.25:
            self.add_twin()
        if self.nested and odd and rng.random() < 0.06:
            # deep nesting
            e = self.atom()
            for _ in range(rng.choice((3, 4, 5, 6, 9, 17))):
                e = (rng.choice(self.symbols), e) if rng.random() < 0.5 else (rng.choice(self.symbols), self.atom(), e)
            self.edges.append(e)

    def add_twin(self):
        """Two edges that Python considers equal: they differ in the type of a number only."""
        r = self.rng
        e = list(r.choice(self.edges))
        i = r.randrange(1, len(e))
        k = r.choice((0, 1, 7, -7, 10 ** 12))
        both = []
        for x in (k, float(k)):
            t = tuple(e[:i]) + (x,) + tuple(e[i + 1:])
            if (self.nested and len(e) < 4 and i == len(e) - 1 and k == 1):
                t = (e[0], t)
            both.append(t)
        for t in both:
            if key(t) not in [key(x) for x in self.edges]:
                self.edges.append(t)

    def atom(self):
        r = self.rng
        if self.numbers and r.random() < 0.25:
            return r.choice(self.numbers)
        return r.choice(self.symbols)

    def entity(self, depth=0):
        r = self.rng
        if self.nested and depth < 2 and r.random() < 0.25:
            if self.edges and r.random() < 0.75:
                return r.choice(self.edges)
            return self.new_edge(depth + 1)
        return self.atom()

    def new_edge(self, depth=0):
        r = self.rng
        n = r.choice(self.lengths) if depth == 0 else r.choice([2, 3])
        if self.edges and depth == 0 and r.random() < 0.2:
            # a near copy: permuted or with one element replaced
            e = list(r.choice(self.edges))
            if r.random() < 0.5:
                r.shuffle(e)
            else:
                e[r.randrange(len(e))] = self.entity()
            out = tuple(e)
        else:
            out = tuple(self.entity(depth) for _ in range(n))
        if is_edge(out[0]) and not self.compound_first:
            out = (r.choice(self.symbols),) + out[1:]
        return out

    def edge(self):
        return self.rng.choice(self.edges)

    def any_entity(self):
        r = self.rng
        x = r.random()
        if x < 0.3:
            return self.edge()
        if x < 0.4:
            e = self.edge()
            return r.choice(e)
        return self.atom()

    def pattern(self):
        r = self.rng
        e = list(self.edge()) if r.random() < 0.85 else list(self.new_edge())
        x = r.random()
        if x < 0.06:
            return tuple(None for _ in e)
        for i in range(len(e)):
            if r.random() < 0.5:
                e[i] = None
        if r.random() < 0.2:
            e[r.randrange(len(e))] = self.entity()
        return tuple(e)

    def root(self):
        s = self.rng.choice(self.symbols)
        r = root_of(s)
        return r if r else s.strip('/') or 'a'
