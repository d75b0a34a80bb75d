"""C13: importing a WordNet corpus, interrupted and repeated."""
import random

from sim import core, seams, wnsim
from sim.core import Violation, run_op, model_op, observe, obs_diff, show_op, WORLD
from sim.gen import Gen, pool_for
from sim.scen_history import gen_fault
from sim.values import key, lst

HOLDER = 'wordnet/gb'
POS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}
REL = dict(zip(wnsim.SYN_RELS, ('hypernym/gb', 'instance_hypernym/gb', 'member_meronym/gb', 'attribute/gb', 'entailment/gb', 'cause/gb', 'also_see/gb', 'verb_group/gb', 'similar_to/gb')))
LREL = dict(zip(wnsim.LEM_RELS, ('antonym/gb', 'pertainym/gb', 'derivationally_related_form/gb')))
WORDS = ['dog', 'domestic_dog', 'Canis_familiaris', "'hood", '.22', 'a.k.a.', 'TCP/IP', '24/7', 'and/or', 'run', 'go', 'good', 'well', 'set', 'big', 'large', '1990s', 'X-ray', 'caf\u00e9',
         'A', 'a', 'be', 'entity', 'thing', 'read/write_head', 'Mr.', 'h\u2082o', 'no.', '%', '10', 'wordnet', 'src', 'U.S.', 'u.s.']


def gen(rng, prop, tier, i):
    big = rng.random() < (0.05 if tier == 'quick' else 0.15)
    wide = not big and rng.random() < (0.03 if tier == 'quick' else 0.08)
    if wide:
        # relations across the whole corpus, in both directions
        big, nsyn = True, rng.choice((120, 180, 260))
    elif big:
        beliefs = rng.choice((498, 499, 500, 501, 502, 503, 1001, 1002))
        nsyn = None
    else:
        nsyn = rng.choice((0, 1, 2, 3, 5, 8, 15))
    synsets = []
    words = rng.sample(WORDS, rng.randint(4, len(WORDS)))
    count = 0
    n = nsyn if nsyn is not None else 10 ** 9
    names = set()
    while len(synsets) < n:
        w = rng.choice(words)
        pos = rng.choice('nvasr')
        k = 1
        while '%s.%s.%02d' % (w.lower(), pos, k) in names:
            k += 1
        name = '%s.%s.%02d' % (w.lower(), pos, k)
        names.add(name)
        lemmas = [w] + [x for x in rng.sample(words, min(len(words), rng.choice((0, 0, 1, 2, 3)))) if x != w]
        synsets.append([name, pos, lemmas, {}, []])
        count += len(lemmas)
        if big and not wide and count >= beliefs:
            break
    m = len(synsets)
    if wide:
        for _ in range(rng.choice((180, 280, 400))):
            s, t = rng.randrange(m), rng.randrange(m)
            both = rng.random() < 0.6
            if rng.random() < 0.6:
                r = rng.choice(wnsim.SYN_RELS)
                for a, b in ((s, t), (t, s))[:2 if both else 1]:
                    if b not in synsets[a][3].setdefault(r, []):
                        synsets[a][3][r].append(b)
            else:
                r = rng.choice(wnsim.LEM_RELS)
                i, j = rng.randrange(len(synsets[s][2])), rng.randrange(len(synsets[t][2]))
                synsets[s][4].append([i, r, t, j])
                if both:
                    synsets[t][4].append([j, r, s, i])
    if m and not big:
        for s in synsets:
            for r in wnsim.SYN_RELS:
                if rng.random() < 0.2:
                    s[3][r] = sorted(set(rng.randrange(m) for _ in range(rng.choice((1, 1, 2, 3)))))
            for r in rng.sample(wnsim.OTHER_SYN, 2):
                if rng.random() < 0.3:
                    s[3][r] = [rng.randrange(m)]
            for r in wnsim.LEM_RELS:
                for _ in range(rng.choice((0, 0, 0, 1, 2))):
                    t = rng.randrange(m)
                    i, j = rng.randrange(len(s[2])), rng.randrange(len(synsets[t][2]))
                    s[4].append([i, r, t, j])
                    if rng.random() < 0.5:
                        synsets[t][4].append([j, r, synsets.index(s), i])
        for r in rng.sample(wnsim.SYN_RELS, 3):
            for a, s in enumerate(synsets):
                for b in s[3].get(r, ()):
                    if a not in synsets[b][3].setdefault(r, []):
                        synsets[b][3][r].append(a)
    pool = pool_for(rng, nedges=3, maxlen=3)
    prefix = Gen(rng, pool, writes=('add', 'belief', 'addm')).history(rng.choice((0, 0, 1, 3)), reads=0)
    if rng.random() < 0.15 and synsets:
        # the user has said one of the corpus' facts already
        s = rng.choice(synsets)
        prefix.append(['belief', rng.choice(('mary/1', HOLDER)), ['pos/gb', symbol(s[2][0], s[0]), POS[s[1]]], 7])
    attempts = []
    for _ in range(rng.choice((0, 1, 1, 2, 3)) if not big else rng.choice((0, 0, 1))):
        x = rng.random()
        if x < 0.35:
            attempts.append(dict(kind='corpus', frac=round(rng.random(), 4), exc=rng.choice(('CorpusError', 'KeyboardInterrupt', 'LookupError'))))
        elif x < 0.5:
            attempts.append(dict(kind='none'))
        else:
            f = gen_fault(rng)
            f['late'] = round(rng.random(), 4) if rng.random() < 0.7 else None
            attempts.append(f)
    return dict(type='wordnet', synsets=synsets, prefix=prefix, faults=attempts, reopen=rng.random() < 0.6, cli=rng.random() < 0.25, big=big, finish=rng.choice((1, 1, 2)))


def symbol(lemma, synset):
    return '%s/wn.%s' % (lemma, synset)


def facts_of(spec):
    out = {}

    def fact(*e):
        out[key(e)] = e
    n = len(spec)
    for name, pos, lemmas, rels, lrels in spec:
        root = symbol(lemmas[0], name)
        fact('pos/gb', root, POS[pos])
        for other in lemmas[1:]:
            fact('synonym/gb', root, symbol(other, name))
        for r in wnsim.SYN_RELS:
            for i in rels.get(r, ()):
                if i < n:
                    fact(REL[r], root, symbol(spec[i][2][0], spec[i][0]))
        for li, r, si, lj in lrels:
            if si < n and li < len(lemmas) and lj < len(spec[si][2]):
                fact(LREL[r], symbol(lemmas[li], name), symbol(spec[si][2][lj], spec[si][0]))
    return out


def command_line():
    def load():
        from gb.gbrain import cli as command
        return command
    return core.quiet(load)


def cli(args):
    from click.testing import CliRunner
    return CliRunner().invoke(command_line(), args)


def run(plan, ctx, prop):
    src = core.source_symbol()
    spec = plan['synsets']
    wn = seams.CORPUS
    from gb.readers import wordnet as reader
    facts = facts_of(spec)
    expected = dict(facts)
    for f in list(facts.values()):
        link = (src, f, HOLDER)
        expected[key(link)] = link
    disk = WORLD.disk('main')
    rng = random.Random('power-%s' % plan['seed'])
    user = {}
    for op in plan['prefix']:
        for e in core.op_edges(op, src):
            user[key(e)] = e
    voc = core.Vocab(plan['prefix'] + [['belief', HOLDER, lst(f), -1] for f in facts.values()], src)
    voc.roots = voc.roots[:6]
    deep = len(facts) <= 12

    def prepare():
        hg = core.new_hg()
        for op in plan['prefix']:
            run_op(hg, op)
        return hg
    # the undisturbed run
    wn.load(spec)
    try:
        hg = prepare()
        disk.reset_calls()
        core.INT.start_count()
        wn.ncalls = 0
        core.quiet(reader.read, hg)
        ncorpus = wn.ncalls
        boundaries = core.INT.disarm()
        counts = dict(disk.calls)
        counts['mut'] = disk.nmut
        counts['any'] = sum(n for c, n in disk.calls.items() if c not in ('lock', 'size'))
        want = look(hg, voc, deep)
        core.close_hg(hg)
    except Exception as e:
        core.INT.disarm()
        raise Violation('exception', 'the import raised %r' % e)
    ctx.cases += 1
    ctx.log('import', len(spec), len(facts), sorted(counts.items()), ncorpus)
    complete(want, expected, user, 'the import')
    # disturbed
    disk.load({})
    hg = None
    try:
        hg = prepare()
    except Exception as e:
        raise Violation('exception', 'preparing raised %r' % e)

    def attempt(f):
        """One attempt; returns (hg or None, error)."""
        if plan['cli']:
            res = cli(['--backend', 'sqlite', '--db', core.DB, 'wordnet'])
            if isinstance(res.exception, SystemExit) or res.exception is None:
                return None if res.exit_code == 0 else SystemExit(res.exit_code)
            return res.exception
        try:
            core.quiet(reader.read, hg)
        except (Exception, KeyboardInterrupt) as e:
            return e
        return None
    for f in plan['faults']:
        wn.ncalls = 0
        wn.fail_at = None
        wn.failed = 0
        k = f['kind']
        if k == 'corpus':
            wn.fail_at = int(f['frac'] * ncorpus)
            wn.fail_exc = {'CorpusError': wnsim.CorpusError, 'KeyboardInterrupt': KeyboardInterrupt, 'LookupError': LookupError}[f['exc']]
        elif k == 'interrupt':
            core.INT.arm(f['nth'] if f['late'] is None else int(f['late'] * boundaries), f.get('exc'))
        elif k != 'none':
            g = {x: y for x, y in f.items() if x not in ('mode', 'late')}
            if f['late'] is not None:
                g['nth'] = int(f['late'] * counts.get(g['call'], 1))
            disk.set_fault(g)
        raised = attempt(f)
        fired = disk.faulted or core.INT.fired or wn.failed
        if core.INT.fired:
            ctx.fault(core.INT.kind)
        if wn.failed:
            ctx.fault('corpus_read_error')
        if k == 'none':
            ctx.fault('repeated_import')
        core.INT.disarm()
        core.INT.fired = 0
        wn.fail_at = None
        dead = disk.dead
        disk.set_fault(None)
        ctx.cases += 1
        what = 'an import with %s' % ({x: y for x, y in f.items() if y is not None})
        ctx.log(what, fired, type(raised).__name__)
        if raised is not None and not fired:
            raise Violation('exception', '%s raised %r' % (what, raised))
        if k == 'crash':
            disk.crash(f['mode'], rng)
        if k == 'crash' or plan['reopen']:
            core.close_hg(hg)
            try:
                hg = core.new_hg()
            except Exception as e:
                raise Violation('exception', 'reopening after %s raised %r' % (what, e))
        try:
            now = look(hg, voc, False)
        except Exception as e:
            raise Violation('exception', 'reading after %s raised %r' % (what, e))
        bad = [e for e in now['edges'] if key(e) not in expected and key(e) not in user]
        if bad:
            raise Violation('outside', 'after %s there is %s, which is not in the corpus' % (what, core.show(bad[0])))
        # (results are sets: of several edges equal up to the type of numbers they hold one)
        found = set(now['edges'])
        gone = [e for e in user.values() if e not in found]
        if gone:
            raise Violation('destroyed', 'after %s, %s is gone' % (what, core.show(gone[0])))
        if raised is None and not dead and k != 'crash':
            complete(now, expected, user, what)
    for n in range(plan['finish']):
        raised = attempt(None)
        if raised is not None:
            raise Violation('exception', 'the undisturbed import after %d disturbed ones raised %r' % (len(plan['faults']), raised))
    ctx.cases += 1
    try:
        got = look(hg, voc, deep)
        core.close_hg(hg)
        hg = core.new_hg()
        fresh = look(hg, voc, deep)
    except Exception as e:
        raise Violation('exception', 'reading the result raised %r' % e)
    complete(got, expected, user, 'the import run to completion')
    for g in (got, fresh):
        if g['obs'] != want['obs']:
            raise Violation('differs', 'after %d disturbed imports: %s' % (len(plan['faults']), obs_diff(want['obs'], g['obs'], voc, 'undisturbed', 'disturbed')))
    ctx.order(len(spec), [(f['kind'], f.get('frac'), f.get('late'), f.get('nth')) for f in plan['faults']], plan['cli'])
    ctx.state(sorted(expected, key=repr))


def look(hg, voc, deep):
    edges = []
    for n in (3, 2):
        edges += list(hg.pattern2edges((None,) * n))
    out = dict(edges=edges)
    if deep:
        out['obs'] = observe(hg, voc)
    else:
        out['obs'] = dict(all=sorted((core.pykey2(v), d) for v, d in hg.f_all(lambda m: (m['vertex'], m['degree']))), length=sorted(repr(key(e)) for e in edges),
                          ts=[hg.timestamp(v) for v in voc.entities[:60]], degree=[hg.degree(v) for v in voc.entities[:60]])
    return out


def complete(now, expected, user, what):
    have = set(key(e) for e in now['edges'])
    missing = [e for k, e in sorted(expected.items(), key=repr) if k not in have]
    if missing:
        raise Violation('incomplete', '%s did not store %s (%d missing)' % (what, core.show(missing[0]), len(missing)))
    bad = [e for e in now['edges'] if key(e) not in expected and key(e) not in user]
    if bad:
        raise Violation('outside', '%s stored %s, which is not in the corpus' % (what, core.show(bad[0])))
