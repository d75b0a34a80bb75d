"""C16: new meanings of symbols, requested by several processes with restarts and any clock."""
import ast
import importlib
import os
import random
import sys

from sim import core
from sim.core import Violation, WORLD

CPU_LIMIT = 800
ROOTS = ['graphbrain', 'a', 'is', 'x_y', '7', '-', '\u65e5\u672c', 'http', 'A', 'a.b', '~not', '%s', 'wordnet', '+s', "d'eau", 'http:', 'u.s.a.', '0', '{}', 'a_symbol_of_several_words_that_is_rather_long', 'l' * 64, 'L' * 300]
SPACED = ['graphbrain/1', 'a/', '/1', '/', 'a/b/c', 'is/gb', '7/7', 'a//b', '~a/1', 'wn.x/wn.y.n.01', 'a/%s']
PREFIXES = ['', '', '', 'p', 'wn.', '1', 'm-', 'longer_prefix.', '%s', '.', '~']


def gen(rng, prop, tier, i):
    # mostly short runs over many process histories; some long ones over few processes
    heavy = i % 25 == 0 if tier == 'quick' else i % 13 == 0
    nproc = rng.choice((1, 2, 3, 5))
    ops = []
    if heavy:
        n = 50000 if tier == 'quick' else 90000
        what = rng.choice(ROOTS), rng.choice(('', 'p'))
        for k in range(4):
            ops.append(['start', rng.randrange(nproc), 4242])
            ops.append(['many', rng.randrange(nproc), what[0], what[1], n // 4])
            ops.append(['clock', gen_clock(rng)])
    else:
        for _ in range(rng.choice((5, 15, 30))):
            x = rng.random()
            p = rng.randrange(nproc)
            if x < 0.2:
                ops.append(['start', p, rng.choice((4242, 4242, 1, 77))])
            elif x < 0.4:
                ops.append(['clock', gen_clock(rng)])
            elif x < 0.44:
                ops.append(['fork', p, rng.choice(ROOTS), rng.choice(PREFIXES), rng.choice((1, 1, 3)), rng.choice((4242, 4242, 5))])
            elif x < 0.5:
                ops.append(['spaced', p, rng.choice(SPACED), rng.choice(PREFIXES)])
            elif x < 0.6:
                ops.append(['again', p])
            else:
                ops.append(['many', p, rng.choice(ROOTS), rng.choice(PREFIXES), rng.choice((1, 1, 2, 5, 12))])
    return dict(type='meaning', ops=ops, heavy=heavy, same_clock=rng.random() < 0.5)


def gen_clock(rng):
    return rng.choice((['jump', rng.choice((-3600.0, -1.0, 1.0, 86400.0, -10 ** 8))], ['freeze'], ['set', rng.choice((0.0, 1.5e9, 2 ** 31 - 1.0))], ['run', rng.random()]))


class Process(object):
    """A process of its own: the modules of gb are loaded anew, random sources are seeded anew."""

    def __init__(self, ctx, pid, n):
        self.pid = pid
        seed = ctx.rng.getrandbits(128)
        random.seed(seed)
        import numpy
        numpy.random.seed(seed & 0xffffffff)
        os.getpid = lambda: pid
        for name in [m for m in sys.modules if m == 'gb' or m.startswith('gb.')]:
            del sys.modules[name]
        try:
            self.sym = importlib.import_module('gb.hypergraph.symbol')
        except Exception as e:
            raise Violation('exception', 'importing the symbol module raised %r' % e)
        self.modules = {k: v for k, v in sys.modules.items() if k == 'gb' or k.startswith('gb.')}
        self.leave()

    def enter(self):
        import numpy
        random.setstate(self.state)
        numpy.random.set_state(self.npstate)
        sys.modules.update(self.modules)
        os.getpid = lambda: self.pid
        return self.sym

    def leave(self):
        import numpy
        self.state = random.getstate()
        self.npstate = numpy.random.get_state()


def run(plan, ctx, prop):
    saved = {k: v for k, v in sys.modules.items() if k == 'gb' or k.startswith('gb.')}
    pid = os.getpid
    try:
        simulate(plan, ctx)
    finally:
        for name in [m for m in sys.modules if m == 'gb' or m.startswith('gb.')]:
            del sys.modules[name]
        sys.modules.update(saved)
        os.getpid = pid


def simulate(plan, ctx):
    procs = {}
    seen = {}
    given = []
    count = [0]

    def request(p, sym, symb, prefix):
        count[0] += 1
        try:
            got = sym.new_meaning(symb, prefix) if prefix or count[0] % 2 else sym.new_meaning(symb)
        except Exception as e:
            raise Violation('exception', 'new_meaning(%r, %r) raised %r' % (symb, prefix, e))
        if '/' in symb:
            if got != symb:
                raise Violation('changed', 'new_meaning(%r, %r) gave %r, although the symbol has a namespace' % (symb, prefix, got))
            return
        if not isinstance(got, str) or '/' not in got:
            raise Violation('malformed', 'new_meaning(%r, %r) gave %r' % (symb, prefix, got))
        root, space = got.split('/', 1)
        if root != symb:
            raise Violation('root', 'new_meaning(%r, %r) gave %r: another root' % (symb, prefix, got))
        if not space.startswith(prefix) or (len(space) == len(prefix)):
            raise Violation('prefix', 'new_meaning(%r, %r) gave %r: not the prefix' % (symb, prefix, got))
        if any(c.isspace() or c in '()' for c in space):
            raise Violation('malformed', 'new_meaning(%r, %r) gave %r, which is not a symbol' % (symb, prefix, got))
        if got in seen:
            raise Violation('repeated', 'request %d (process %s): new_meaning(%r, %r) gave %r, as request %d (process %s) did' % ((count[0], p, symb, prefix, got) + seen[got]))
        seen[got] = (count[0], p)
        if len(given) < 50:
            given.append(got)

    def process(p):
        if p not in procs:
            procs[p] = Process(ctx, 4242, p)
            ctx.fault('process_start')
        return procs[p]
    for op in plan['ops']:
        name = op[0]
        ctx.log(*[str(x) for x in op])
        if name == 'start':
            if op[1] in procs:
                ctx.fault('process_restart')
            procs[op[1]] = Process(ctx, op[2], op[1])
        elif name == 'clock':
            how = op[1]
            ctx.fault('clock_%s' % how[0])
            if how[0] == 'jump':
                WORLD.now = max(0.0, WORLD.now + how[1])
            elif how[0] == 'set':
                WORLD.now = how[1]
            elif how[0] == 'run':
                WORLD.now += how[1]
        elif name in ('many', 'spaced', 'again'):
            proc = process(op[1])
            sym = proc.enter()
            try:
                if name == 'many':
                    for _ in range(op[4]):
                        request(op[1], sym, op[2], op[3])
                        if not plan['same_clock']:
                            WORLD.now += 0.001
                elif name == 'spaced':
                    request(op[1], sym, op[2], op[3])
                else:
                    for got in given[-5:]:
                        request(op[1], sym, got, '')
            finally:
                proc.leave()
            ctx.cases += 1
            ctx.order(name, op[1:], count[0])
        elif name == 'fork':
            # a process forks, both go on; as in CPython, the child seeds the module random anew
            proc = process(op[1])
            sym = proc.enter()
            ctx.fault('process_fork')
            requests = [op[2]] * op[4]
            child = forked(sym, requests, op[3], ctx.rng.getrandbits(128), op[5])
            try:
                for symb in requests:
                    request(op[1], sym, symb, op[3])
            finally:
                proc.leave()
            answers = Answers(child)
            for symb in requests:
                request('%s, forked' % op[1], answers, symb, op[3])
            ctx.cases += 1
            ctx.order('fork', op[1:], count[0])
    ctx.state(sorted(seen)[:20])


class Answers(object):
    """What a child process answered, in order."""

    def __init__(self, got):
        self.got = got

    def new_meaning(self, symb, prefix=''):
        got, exc = self.got.pop(0)
        if exc is not None:
            raise RuntimeError(exc)
        return got


def forked(sym, requests, prefix, seed, pid):
    """The answers of a child process."""
    sys.stdout.flush()
    r, w = os.pipe()
    real = os.fork()
    if real == 0:
        out = []
        try:
            random.seed(seed)
            WORLD.rng = random.Random(seed)
            os.getpid = lambda: pid
            for symb in requests:
                try:
                    out.append([sym.new_meaning(symb, prefix), None])
                except Exception as e:
                    out.append([None, repr(e)])
            with os.fdopen(w, 'wb') as f:
                f.write(repr(out).encode('utf-8', 'surrogatepass'))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(real, 0)
    if not data:
        raise Violation('exception', 'the process ended in new_meaning')
    return ast.literal_eval(data.decode('utf-8', 'surrogatepass'))
