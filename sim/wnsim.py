"""A simulated corpus reader with the interface of nltk.corpus.wordnet, over a generated corpus.

Every call of a reader method is counted; a planned one raises (the corpus file cannot be read)."""

SYN_RELS = ('hypernyms', 'instance_hypernyms', 'member_meronyms', 'attributes', 'entailments', 'causes', 'also_sees', 'verb_groups', 'similar_tos')
LEM_RELS = ('antonyms', 'pertainyms', 'derivationally_related_forms')
# relations of a corpus that the importer does not handle
OTHER_SYN = ('hyponyms', 'instance_hyponyms', 'member_holonyms', 'part_meronyms', 'part_holonyms', 'substance_meronyms', 'substance_holonyms',
             'topic_domains', 'region_domains', 'usage_domains')


class CorpusError(IOError):
    pass


class Lemma(object):
    def __init__(self, wn, syn, name):
        self._wn, self._syn, self._name, self._rel = wn, syn, name, {}

    def name(self):
        self._wn.call()
        return self._name

    def synset(self):
        self._wn.call()
        return self._syn

    def key(self):
        return '%s%%%s' % (self._name, self._syn._name)

    def count(self):
        return 0

    def lang(self):
        return 'eng'

    def __hash__(self):
        return hash((self._name, self._syn._name))

    def __eq__(self, o):
        return isinstance(o, Lemma) and (self._name, self._syn._name) == (o._name, o._syn._name)

    def __lt__(self, o):
        return (self._syn._name, self._name) < (o._syn._name, o._name)

    def __repr__(self):
        return 'Lemma(%r)' % ('%s.%s' % (self._syn._name, self._name))


class Synset(object):
    def __init__(self, wn, name, pos):
        self._wn, self._name, self._pos, self._lemmas, self._rel = wn, name, pos, [], {}

    def name(self):
        self._wn.call()
        return self._name

    def pos(self):
        self._wn.call()
        return self._pos

    def lemmas(self, lang='eng'):
        self._wn.call()
        return list(self._lemmas)

    def lemma_names(self, lang='eng'):
        self._wn.call()
        return [lem._name for lem in self._lemmas]

    def definition(self):
        return 'definition of %s' % self._name

    def examples(self):
        return []

    def lexname(self):
        return 'noun.Tops'

    def offset(self):
        return self._wn._synsets.index(self)

    def __hash__(self):
        return hash(self._name)

    def __eq__(self, o):
        return isinstance(o, Synset) and self._name == o._name

    def __lt__(self, o):
        return self._name < o._name

    def __repr__(self):
        return 'Synset(%r)' % self._name


def _rel(name):
    def get(self):
        self._wn.call()
        return list(self._rel.get(name, ()))
    get.__name__ = name
    return get


for _n in SYN_RELS + OTHER_SYN:
    setattr(Synset, _n, _rel(_n))
for _n in LEM_RELS + ('hypernyms', 'hyponyms', 'topic_domains', 'also_sees', 'verb_groups', 'similar_tos', 'attributes', 'entailments', 'causes'):
    setattr(Lemma, _n, _rel('lemma_' + _n if _n not in LEM_RELS else _n))


class WordNet(object):
    ADJ, ADJ_SAT, ADV, NOUN, VERB = 'a', 's', 'r', 'n', 'v'

    def __init__(self):
        self.load([])

    def load(self, spec):
        """spec: [[synset name, pos, [lemma names], {relation: [synset index]}, [[lemma index, relation, synset index, lemma index]]]]"""
        self.ncalls = 0
        self.fail_at = None
        self.fail_exc = CorpusError
        self.failed = 0
        self._synsets = []
        for name, pos, lemmas, rels, lrels in spec:
            s = Synset(self, name, pos)
            s._lemmas = [Lemma(self, s, n) for n in lemmas]
            self._synsets.append(s)
        n = len(self._synsets)
        for s, (name, pos, lemmas, rels, lrels) in zip(self._synsets, spec):
            for r in sorted(rels):
                s._rel[r] = [self._synsets[i] for i in rels[r] if i < n]
            for li, r, si, lj in lrels:
                if si < n and li < len(s._lemmas) and lj < len(self._synsets[si]._lemmas):
                    s._lemmas[li]._rel.setdefault(r, []).append(self._synsets[si]._lemmas[lj])

    def call(self):
        i = self.ncalls
        self.ncalls += 1
        if self.fail_at is not None and i == self.fail_at:
            self.failed += 1
            raise self.fail_exc('simulated: cannot read the corpus')

    def all_synsets(self, pos=None, lang='eng'):
        for s in self._synsets:
            if pos is not None and s._pos != pos and not (pos == 'a' and s._pos == 's'):
                continue
            self.call()
            yield s

    def all_lemma_names(self, pos=None, lang='eng'):
        return iter(sorted(set(lem._name for s in self._synsets for lem in s._lemmas)))

    def synset(self, name):
        for s in self._synsets:
            if s._name == name:
                return s
        raise CorpusError(name)

    def ensure_loaded(self):
        pass
