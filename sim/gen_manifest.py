"""Writes MANIFEST.json from spec.SPECS and the properties that this technique cannot address."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sim import spec

NA = {
    'C20': 'Conversion between an edge and its text is a pure function of its argument: no scheduling, time, I/O, randomness or fault for a simulation to control. (Its effect on stored edges is covered by C01.)',
    'C21': 'Symbol operations are pure functions of their argument; nothing nondeterministic for a simulation to control. (Freshness of new meanings, which is random, is C16.)',
    'C22': 'A relation between one parse tree and one hyperedge: a pure function without schedule, time, I/O or fault. (Independence of history and failures is C17.)',
    'C23': 'Pure functions of stored contents; deciding them needs an oracle over inputs, not schedules or faults. (ego() and the intersection module do not work at all at this commit; see DESIGN.md.)',
    'C24': 'The null backend has no state, I/O, time or other party: every operation returns a constant.',
    'C25': 'Clojure and ClojureScript code; no Clojure toolchain or dependency is available offline, so it cannot be run under any simulator here.',
}
TECH = 'deterministic simulation with fault injection: seeded search over '
man = dict(version=1, setup_cmd='./check --selftest', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
           notes='No hooks in /repo: every seam exists already (SQLite VFS, connection factory, MySQLdb.connect, nltk.corpus.wordnet, spacy.load, time, random, streams). '
                 'A replay file is replayed with ./check --replay FILE.')
for pid in sorted(spec.SPECS):
    sp = spec.SPECS[pid]
    man['checks'].append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='./check %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
                              technique=TECH + sp['over'], level=sp['level'], level_note=sp['note']))
with open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
