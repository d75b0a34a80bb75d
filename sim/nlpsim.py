"""A simulated language model with the interface of spaCy: the parse is a (pseudo-random) function of the text alone.
Failures are injected while it is loaded, while it parses, and at any access to what it returns."""
import hashlib
import random

DEPS = ['aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod', 'pcomp', 'compound', 'prep', 'prep', 'pobj', 'dobj', 'nsubj', 'punct', 'conj', 'acomp', 'xcomp',
        'attr', 'advcl', 'relcl', 'npadvmod', 'nsubjpass', 'mark', '']
POS = ['VERB', 'VERB', 'NOUN', 'NOUN', 'PROPN', 'ADV', 'ADP', 'ADP', 'PART', 'DET', 'ADJ', 'PUNCT', 'NUM', 'CCONJ', 'PRON', 'SPACE']
BY_DEP = {'punct': 'PUNCT', 'det': 'DET', 'aux': 'VERB', 'prep': 'ADP', 'agent': 'ADP', 'nsubj': 'NOUN', 'pobj': 'NOUN', 'advmod': 'ADV', 'amod': 'ADJ', 'nummod': 'NUM', 'ROOT': 'VERB', 'cc': 'CCONJ'}
ENTS = ['', '', 'GPE', 'PERSON', 'ORG', 'DATE']


class ModelError(Exception):
    pass


class Faults(object):
    """Counts the accesses to the model; raises at the n-th one."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.fail_at = None
        self.exc = None
        self.load_exc = None
        self.fired = 0
        self.loads = 0
        self.parses = 0

    def access(self):
        n = self.n
        self.n += 1
        if self.fail_at is not None and n == self.fail_at:
            self.fail_at = None
            self.fired += 1
            raise self.exc('simulated, at access %d' % n)


FAULTS = Faults()


def load(name, *args, **kwargs):
    FAULTS.loads += 1
    if FAULTS.load_exc is not None:
        e = FAULTS.load_exc
        FAULTS.load_exc = None
        FAULTS.fired += 1
        raise e('simulated: can\'t find model %r' % name)
    return Language()


class Language(object):
    lang = 'en'

    def __call__(self, text, *args, **kwargs):
        FAULTS.parses += 1
        FAULTS.access()
        return Doc(text)

    def pipe(self, texts, **kwargs):
        for t in texts:
            yield self(t)


def rng_of(text):
    return random.Random(int.from_bytes(hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big'))


class Doc(object):
    def __init__(self, text):
        self.text = text
        self.tokens = []
        self.spans = []
        r = rng_of(text)
        idx = 0
        start = 0
        words = text.split()
        for w in words:
            idx = text.index(w, idx)
            self.tokens.append(Token(self, len(self.tokens), idx, w))
            idx += len(w)
            if w.endswith('.') or len(self.tokens) - start >= 10:
                self.spans.append((start, len(self.tokens)))
                start = len(self.tokens)
        if start < len(self.tokens):
            self.spans.append((start, len(self.tokens)))
        for a, b in self.spans:
            self.parse(r, a, b)

    def parse(self, r, a, b):
        """A random projective dependency tree."""
        def build(lo, hi, head):
            # words lo..hi-1 are below head (or the sentence)
            i = r.randrange(lo, hi)
            t = self.tokens[i]
            t.head_i = i if head is None else head
            t.dep = 'ROOT' if head is None else r.choice(DEPS)
            t.pos = BY_DEP.get(t.dep) if r.random() < 0.6 else None
            if t.pos is None:
                t.pos = r.choice(POS)
            t.ent = r.choice(ENTS)
            for lo2, hi2, side in ((lo, i, 0), (i + 1, hi, 1)):
                while lo2 < hi2:
                    cut = r.randint(lo2 + 1, hi2)
                    child = build(lo2, cut, i)
                    (t.left_i if side == 0 else t.right_i).append(child)
                    lo2 = cut
            return i
        build(a, b, None)

    def __len__(self):
        return len(self.tokens)

    def __getitem__(self, i):
        FAULTS.access()
        if isinstance(i, slice):
            return [self.tokens[k] for k in range(*i.indices(len(self.tokens)))]
        return self.tokens[i]

    def __iter__(self):
        for t in self.tokens:
            FAULTS.access()
            yield t

    @property
    def sents(self):
        for a, b in self.spans:
            FAULTS.access()
            yield Span(self, a, b)


class Span(object):
    def __init__(self, doc, start, end):
        self.doc = doc
        self.start = start
        self.end = end

    def __iter__(self):
        for i in range(self.start, self.end):
            yield self.doc[i]

    def __len__(self):
        return self.end - self.start

    def __getitem__(self, i):
        return self.doc.tokens[self.start:self.end][i]

    @property
    def root(self):
        return next(t for t in self if t.dep == 'ROOT')

    @property
    def text(self):
        ts = self.doc.tokens
        last = ts[self.end - 1]
        return self.doc.text[ts[self.start].idx:last.idx + len(last.word)]

    def __str__(self):
        return self.text


class Token(object):
    """Compares as the tokens of spaCy do: by document and position (hash), by offset (equality)."""

    def __init__(self, doc, i, idx, word):
        self.doc = doc
        self.i = i
        self.idx = idx
        self.word = word
        self.left_i = []
        self.right_i = []
        self.head_i = i
        self.dep = self.pos = self.ent = ''

    def __hash__(self):
        return hash((id(self.doc), self.i))

    def __eq__(self, other):
        return isinstance(other, Token) and self.idx == other.idx

    def __len__(self):
        return len(self.word)

    def __str__(self):
        return self.word

    __repr__ = __str__

    def _get(f):
        def get(self):
            FAULTS.access()
            return f(self)
        return property(get)
    orth_ = _get(lambda s: s.word)
    text = _get(lambda s: s.word)
    lower_ = _get(lambda s: s.word.lower())
    lemma_ = _get(lambda s: s.word.lower().rstrip('s'))
    shape_ = _get(lambda s: ''.join('X' if c.isupper() else 'x' if c.isalpha() else 'd' if c.isdigit() else c for c in s.word))
    prob = _get(lambda s: -10.0)
    pos_ = _get(lambda s: s.pos)
    tag_ = _get(lambda s: s.pos)
    dep_ = _get(lambda s: s.dep)
    ent_type_ = _get(lambda s: s.ent)
    head = _get(lambda s: s.doc.tokens[s.head_i])
    is_punct = _get(lambda s: s.pos == 'PUNCT')
    is_space = _get(lambda s: s.pos == 'SPACE')

    @property
    def lefts(self):
        for i in self.left_i:
            FAULTS.access()
            yield self.doc.tokens[i]

    @property
    def rights(self):
        for i in self.right_i:
            FAULTS.access()
            yield self.doc.tokens[i]

    @property
    def children(self):
        for i in self.left_i + self.right_i:
            FAULTS.access()
            yield self.doc.tokens[i]

    @property
    def n_lefts(self):
        return len(self.left_i)

    @property
    def n_rights(self):
        return len(self.right_i)
