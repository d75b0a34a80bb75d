"""C17: what an extractor produces depends on the text alone, whatever was read, failed or interrupted before."""
import gc
import importlib
import io
import json
import os
import random
import subprocess
import sys

from sim import core, seams
from sim.core import Violation, WORLD

WORDS = ['Berlin', 'is', 'influenced', 'by', 'a', 'temperate', 'climate', 'the', 'European', 'Plain', 'Telmo', 'going', 'to', 'gym', 'Some', 'of', 'mosquito', 'might', 'be', 'wants', '2016', ',', '-', 'open',
         'Japan', 'sauces', 'all', 'best', 'known', 'as', 'where', 'and', "'s", '(1955)', 'and/or', '\u65e5\u672c', 'caf\u00e9', 'IS', 'A', 'x']
FULL = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')
STAGES = [FULL, FULL, FULL, FULL, FULL[:4], FULL[:3], FULL[:2], FULL[:1], ('alpha', 'beta', 'epsilon')]
EXCS = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'ValueError': ValueError, 'OSError': OSError}


def gen_sentence(rng, words):
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
    ws = [rng.choice(words) for _ in range(n)]
    if rng.random() < 0.85:
        ws[-1] += '.'
    return rng.choice((' ', ' ', ' ', '  ', '\n')).join(ws)


def gen(rng, prop, tier, i):
    words = rng.sample(WORDS, rng.randint(3, len(WORDS)))
    sents = [gen_sentence(rng, words) for _ in range(rng.randint(1, 5))]
    texts = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice((0, 1, 1, 1, 2, 3))
        texts.append(' '.join(rng.choice(sents) for _ in range(k)) if k else rng.choice(('', '  ', '\n')))
    ops = []
    n = rng.choice((1, 2, 2, 3))
    for _ in range(rng.choice((2, 4, 7, 12))):
        e = rng.randrange(n)
        t = rng.randrange(len(texts))
        x = rng.random()
        if x < 0.25:
            ops.append(['fail', e, t, dict(frac=round(rng.random(), 4), exc=rng.choice(sorted(EXCS)))])
        elif x < 0.32:
            ops.append(['load_fail', e, t, rng.choice(('OSError', 'KeyboardInterrupt', 'MemoryError'))])
        elif x < 0.38:
            ops.append(['stage_fail', e, t, dict(frac=round(rng.random(), 4), exc=rng.choice(sorted(EXCS)))])
        elif x < 0.42:
            ops.append(['out_fail', e, t, rng.randrange(12)])
        elif x < 0.47:
            ops.append(['forget', e])
        elif x < 0.52:
            ops.append(['sentences', e, t])
        else:
            ops.append(['read', e, t])
    ext = [dict(stages=list(rng.choice(STAGES)), hg=rng.choice((None, None, 'null')), debug=rng.random() < 0.15) for _ in range(n)]
    return dict(type='extract', texts=texts, ops=ops, extractors=ext)


# -- in the same or another process ----------------------------------------------------------------------------------
def make(spec):
    from gb.knowledge.extractor import Extractor
    hg = None
    if spec['hg'] == 'null':
        from gb.hypergraph.hypergraph import HyperGraph
        hg = HyperGraph({'backend': 'null'})
    e = Extractor(hg, stages=tuple(spec['stages'])) if tuple(spec['stages']) != FULL else Extractor(hg)
    e.debug = spec['debug']
    return e


def result_str(r):
    if isinstance(r, tuple):
        return repr(r)
    return '%s|%s' % (r, [[t.token.word, t.token.pos, t.token.dep, t.token.entity_type, t.namespace] for t in r.root().flat_leafs()] if hasattr(r, 'root') else '')


def outcome(f, extractor):
    """What a read gives: results as text and stage outputs, or the kind of error."""
    try:
        res = f()
    except Exception as e:
        return None, ['error', type(e).__name__]
    return res, ['ok', [result_str(r) for r in res], list(extractor.outputs)]


def fresh(texts, specs):
    """Every text read by a new extractor."""
    table = {}
    for n, spec in enumerate(specs):
        for t, text in enumerate(texts):
            e = make(spec)
            table['%d:%d' % (n, t)] = core.quiet(outcome, lambda: e.read_text(text), e)[1]
    return table


class Peer(object):
    """Another process, with other string hashes, that reads texts with new extractors."""
    proc = None

    @classmethod
    def ask(cls, texts, specs):
        if cls.proc is None or cls.proc.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED='1000003')
            cls.proc = subprocess.Popen([sys.executable, '-B', '-c',
                                         'import sys; sys.path.insert(0, %r); from sim import scen_extract; scen_extract.serve(%r)' % (core_root(), seams._installed)],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        cls.proc.stdin.write((json.dumps([texts, specs]) + '\n').encode())
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            raise core.HarnessError('the other process ended')
        return json.loads(line.decode())


def alone(text, spec):
    """What a process that has read nothing else reads."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            got = fresh([text], [spec])['0:0']
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(got))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def core_root():
    return os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def serve(repo):
    out = os.fdopen(os.dup(1), 'w')
    seams.install(repo)
    from sim import nlpsim
    seams.SPACY.loader = nlpsim.load
    random.seed(987654321)
    for n in ('extractor', 'stages.alpha', 'stages.beta', 'stages.gamma', 'stages.delta', 'stages.epsilon'):
        importlib.import_module('gb.knowledge.' + n)
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        texts, specs = json.loads(line)
        WORLD.now = 10 ** 9
        table = {}
        for n, spec in enumerate(specs):
            if spec in specs[:n]:
                for t in range(len(texts)):
                    table['%d:%d' % (n, t)] = table['%d:%d' % (specs.index(spec), t)]
                continue
            for t, text in enumerate(texts):
                table['%d:%d' % (n, t)] = alone(text, spec)
        out.write(json.dumps(table) + '\n')
        out.flush()
    os._exit(0)


# -- the simulated run ---------------------------------------------------------------------------------------------------
class BadOut(io.StringIO):
    def __init__(self, n):
        io.StringIO.__init__(self)
        self.left = n
        self.fired = 0

    def write(self, s):
        if self.left <= 0:
            self.fired += 1
            raise OSError(28, 'simulated: no space left on device')
        self.left -= 1
        return io.StringIO.write(self, s)


def run(plan, ctx, prop):
    from sim import nlpsim
    F = nlpsim.FAULTS
    F.reset()
    seams.SPACY.loader = nlpsim.load
    try:
        simulate(plan, ctx, F)
    finally:
        seams.SPACY.loader = None
        F.reset()


def simulate(plan, ctx, F):
    texts = plan['texts']
    specs = plan['extractors']
    table = fresh(texts, specs)
    access = {}
    for t, text in enumerate(texts):
        for n, spec in enumerate(specs):
            F.reset()
            e = make(spec)
            core.quiet(outcome, lambda: e.read_text(text), e)
            access[n, t] = F.n
    F.reset()
    ctx.cases += 1
    ctx.fault('other_process')
    peer = Peer.ask(texts, specs)
    for k in sorted(table):
        if table[k] != peer[k]:
            raise Violation('process', 'reading %r gives %s in this process, %s in another one' % (texts[int(k.split(':')[1])], show(table[k]), show(peer[k])))
    exts = {}
    kept = []        # (result, its text when it was returned, what)
    copies = [str(t) for t in texts]

    def ext(n):
        if n not in exts:
            exts[n] = make(specs[n])
        return exts[n]

    def expect(n, t, got, when):
        want = table['%d:%d' % (n, t)]
        ctx.cases += 1
        if got != want:
            raise Violation('depends', '%s: reading %r gives %s, a new extractor gives %s' % (when, texts[t], show(got), show(want)))

    history = []

    def when():
        return 'after ' + ', '.join(history[-6:]) if history else 'at first'
    for op in plan['ops']:
        name, n = op[0], op[1]
        if n >= len(specs) or (len(op) > 2 and op[2] >= len(texts)):
            raise core.Unusable('plan')
        F.reset()
        if name == 'forget':
            exts.pop(n, None)
            ctx.fault('new_extractor')
            history.append('dropping extractor %d' % n)
            continue
        t = op[2]
        e = ext(n)
        text = texts[t]
        if name == 'read':
            res, got = core.quiet(outcome, lambda: e.read_text(text), e)
            expect(n, t, got, when())
            if res is not None:
                keep(kept, res, got, text)
                count(text, res)
            history.append('reading %r' % text)
        elif name == 'sentences':
            # one result per sentence, in order: the same as sentence by sentence
            sentences(ctx, specs[n], text, table['%d:%d' % (n, t)], e if len(history) % 2 else None)
            history.append('reading %r by sentences' % text)
        elif name == 'stage_fail':
            fired = staged(e, text, op[3], ctx)
            history.append('failing to read %r (a stage, %s)' % (text, op[3]['exc']) if fired else 'reading %r' % text)
        elif name == 'out_fail':
            out = BadOut(op[3])
            old, sys.stdout = sys.stdout, out
            try:
                e.read_text(text)
            except Exception:
                pass
            finally:
                sys.stdout = old
            if out.fired:
                ctx.fault('output_error')
            history.append('reading %r with a failing output' % text)
        else:
            if name == 'load_fail':
                F.load_exc = EXCS[op[3]]
            else:
                F.fail_at = int(op[3]['frac'] * access[n, t])
                F.exc = EXCS[op[3]['exc']]
            raised = None
            try:
                core.quiet(e.read_text, text)
            except (Exception, KeyboardInterrupt) as x:
                raised = x
            fired = F.fired
            F.load_exc = None
            F.fail_at = None
            ctx.cases += 1
            if fired:
                ctx.fault('model_load_failure' if name == 'load_fail' else 'parse_failure')
                if raised is None:
                    raise Violation('swallowed', '%s: the failure (%s) while reading %r raised nothing' % (when(), name, text))
            history.append('failing to read %r (%s)' % (text, type(raised).__name__))
        ctx.log(name, n, t, type(e).__name__)
        unchanged(kept, history)
        if [str(x) for x in texts] != copies:
            raise Violation('text', 'a text was changed')
    # everything once more, with all that history
    for n in range(len(specs)):
        for t, text in enumerate(texts):
            F.reset()
            e = ext(n)
            res, got = core.quiet(outcome, lambda: e.read_text(text), e)
            expect(n, t, got, when())
    unchanged(kept, history)
    ctx.order([op[:3] for op in plan['ops']], [s['stages'] for s in specs])
    ctx.state(sorted(repr(v) for v in table.values()))


def keep(kept, res, got, text):
    kept.append((res, got[1], text))


def unchanged(kept, history):
    for res, want, text in kept:
        now = [result_str(r) for r in res]
        if now != want:
            raise Violation('changed', 'the result for %r was %s, and is %s after %s' % (text, str(want)[:150], str(now)[:150], ', '.join(history[-3:])))


def count(text, res):
    from sim import nlpsim
    n = len(nlpsim.Doc(text).spans)
    if len(res) != n:
        raise Violation('count', '%d results for the %d sentences of %r' % (len(res), n, text))


def sentences(ctx, spec, text, want, same=None):
    from gb.nlp.parser import Parser
    from gb.nlp.sentence import Sentence
    if want[0] != 'ok':
        return
    out = []

    def each():
        for sent in Parser().parse_text(text):
            e = same or make(spec)
            r, o = outcome(lambda: [e.read_sentence(Sentence(sent))], e)
            out.append(o)
    core.quiet(each)
    ctx.cases += 1
    got = [o[1][0] if o[0] == 'ok' else o for o in out]
    if got != want[1]:
        raise Violation('order', 'reading %r gives %s, its sentences one by one give %s' % (text, str(want[1])[:200], str(got)[:200]))
    if out and out[-1][2] != want[2]:
        raise Violation('outputs', 'reading %r reports the stage outputs %s, its last sentence %s' % (text, str(want[2])[:200], str(out[-1][2])[:200]))


def staged(e, text, f, ctx):
    """Fails inside of a stage: at the n-th call of a method of the tree."""
    from gb.knowledge import semantic_tree
    calls = [0]
    fired = [0]
    nth = [None]
    real = semantic_tree.Tree.get

    def get(self, elem_id):
        if nth[0] is not None and calls[0] == nth[0]:
            nth[0] = None
            fired[0] += 1
            raise EXCS[f['exc']]('simulated, in a stage')
        calls[0] += 1
        return real(self, elem_id)
    semantic_tree.Tree.get = get
    try:
        probe = type(e)(e.hg, stages=e.stages)
        try:
            core.quiet(probe.read_text, text)
        except Exception:
            pass
        nth[0] = int(f['frac'] * calls[0])
        calls[0] = 0
        try:
            core.quiet(e.read_text, text)
        except (Exception, KeyboardInterrupt):
            pass
    finally:
        semantic_tree.Tree.get = real
    if fired[0]:
        ctx.fault('stage_failure')
    return fired[0]


def show(o):
    return str(o)[:300]
