"""Writes properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)

SQL = 'gb/hypergraph/sql.py'
LITE = 'gb/hypergraph/sqlite.py'
HG = 'gb/hypergraph/hypergraph.py'
EDGE = 'gb/hypergraph/edge.py'
BATCH = 'gb/hypergraph/batch_hypergraph.py'
PERMS = ('perms table', 'one row per permutation of every existing edge: the query index and the edge set', SQL)
VERTS = ('vertices table', 'one row per known entity (symbol, number or edge) with degree and timestamp', SQL)
DOMAIN = ('Entities are symbols (non-empty strings without whitespace or parentheses that do not read as a number), '
          'ints, finite floats and, recursively, edges of two or more entities.')

p('C01', 'Stored edges behave as a faithful set across any history and restart',
  'After any history of adds and removes (of one or several edges), erasures, closes and reopenings of an SQLite-backed hypergraph, an edge '
  'exists exactly if the last successful operation concerning it added it, and it reads back equal to what was added: symbols, '
  'integers, floats and nested edges, element by element and in order. Adding an edge that exists or removing one that does not changes nothing observable. '
  + DOMAIN,
  ['histories', 'inputs', 'fault_sequences'],
  'every finite history of edge operations, clean restarts, crashes and failed operations, over all entity types and nesting, edges of 2 to 6 elements',
  'The tests add and remove one or two fixed three-element ASCII edges in one session; they never reopen the file, mix entity types in one history, or use edges of other lengths.',
  [SQL, LITE, EDGE, HG],
  [('add_raw / remove_raw guarded by exists', SQL), ('edge to string and back', EDGE), ('permutation encoding and its inverse', SQL)],
  [PERMS, VERTS], ['HyperGraph.exists', 'HyperGraph.pattern2edges', 'HyperGraph.star'])

p('C02', 'Queries return exactly the matching edges',
  'At every quiescent point, whatever adds, removes, failures, crashes and restarts came before, a pattern query returns exactly the existing edges of that length '
  'that agree with the pattern in every non-wildcard position, a star query exactly the existing edges that contain the entity at the top level, '
  'and a root query exactly the symbols with that root and a namespace (root/...) that occur at the top level of an existing edge. Removing by pattern removes exactly the edges the pattern query returns.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points'],
  'every reachable stored state and every pattern/entity/root, including entities that share a textual prefix, repeated elements, numbers and nested edges',
  'The tests issue six queries over two edges; a partially written index (crash or error in the middle of an operation) or prefix-sharing entities never occur in them.',
  [SQL, HG], [('range scan over permutation strings, then exact filter', SQL), ('all permutations written and removed together', SQL)],
  [PERMS], ['HyperGraph.pattern2edges', 'HyperGraph.star', 'HyperGraph.symbols_with_root', 'HyperGraph.remove_by_pattern'])

p('C03', 'Degree counts the occurrences of an entity in existing edges',
  'At every quiescent point the degree of every entity, atomic or edge, equals the number of positions it occupies at the top level of existing edges, and is zero for an '
  'entity that occurs in none. This holds whatever the order in which edges and the edges containing them were added and removed, and across failed operations, crashes, restarts and concurrent clients.',
  ['histories', 'fault_sequences', 'crash_points', 'schedules'],
  'every history of operations of one or several clients, with I/O failures, crashes and restarts at any point',
  'The degree is a counter maintained separately from the edges; the tests check it for two edges over one uninterrupted session and never for an edge used inside another one that is added later.',
  [SQL], [('inc_degree / dec_degree inside add and remove', SQL), ('one transaction per operation', SQL)],
  [VERTS], ['HyperGraph.degree', 'HyperGraph.f_all'])

p('C04', 'Timestamps record when an entity or edge was introduced',
  'An atomic entity keeps the timestamp of the add that first introduced it since the last erasure, even after its edges are removed; an existing edge has the timestamp of the add that created it, and '
  'adding it again does not change it. An entity never seen, or an edge that was removed and is used by no other edge, has timestamp -1, and all this survives restarts, crashes and failed operations.',
  ['histories', 'fault_sequences', 'crash_points'],
  'every history of adds with any 64-bit timestamps (default -1 included), removes, erasures, restarts, failures and crashes',
  'The tests use a single non-default timestamp in one session.',
  [SQL], [('timestamp written on first insertion of the vertex row', SQL)], [VERTS], ['HyperGraph.timestamp'])

p('C05', 'Acknowledged operations survive any later crash',
  'Once an add, remove, erasure, belief operation, removal by pattern, batch execution or bulk-load flush on an SQLite-backed hypergraph has returned, all its effects are visible after the process is killed or '
  'the machine loses power at any later instant and the hypergraph is reopened. In particular no earlier failed or interrupted operation makes later acknowledged ones volatile.',
  ['crash_points', 'histories', 'fault_sequences'],
  'every history, every crash instant (any storage call), any subset of unsynced sectors lost',
  'No test kills the process, loses unsynced writes or even closes the database.',
  [SQL, LITE, HG, BATCH], [('commit at the end of every operation', SQL), ('SQLite rollback journal with synchronous writes', LITE)],
  [PERMS, VERTS], ['all read operations of a fresh HyperGraph on the surviving file'])

p('C06', 'A crash in the middle of an operation leaves all or none of it',
  'If the process is killed or power is lost while an operation (add or remove of one or several edges, erasure, add or removal of a belief, removal by pattern, batch execution) is in progress, then after reopening '
  'either every effect of that operation is visible (edges, query results, degrees, timestamps) or none is. The reopened hypergraph accepts further operations normally.',
  ['crash_points', 'histories'],
  'every operation kind, every state it starts from, every storage call at which the crash can fall, torn and lost sector writes',
  'No test interrupts an operation; the in-between states exist only on disk between two storage calls.',
  [SQL, HG], [('a single transaction around all statements of an operation', SQL)], [PERMS, VERTS], ['all read operations after reopening'])

p('C07', 'A failed operation changes nothing and the hypergraph stays usable',
  'If an operation raises an error, because of an I/O error, a full disk, a lock held elsewhere, an interrupt, or an element that cannot be stored, its observable effects are all or nothing: an element that cannot be stored '
  'means nothing. Once the cause is gone the same hypergraph object keeps working: the next operations succeed, are correct, visible to other connections and durable.',
  ['fault_sequences', 'histories', 'inputs'],
  'every operation kind, each kind of failure at each storage call or statement of the operation, transient or lasting, followed by any further operations',
  'The tests never make an operation fail.',
  [SQL, HG], [('rollback and release of the shared cursor when an operation fails', SQL)],
  [('open cursor/transaction of the connection', 'must not outlive a failed operation', SQL)], ['exceptions', 'reads through the same and through another connection'])

p('C08', 'A batch of functions executes as one transaction',
  'Every operation of the backend, and every belief operation on the hypergraph, works inside a batch exactly as outside it, and sees the effects of the operations before it in the batch. '
  'The effects become visible to other connections and durable all together when the batch returns; if one of the functions raises, the error propagates, no effect of the batch remains, and the hypergraph stays usable. '
  'A function may handle the error of an operation of its own: nothing of that operation remains, and the batch either goes on or fails as a whole.',
  ['histories', 'fault_sequences', 'crash_points', 'schedules'],
  'every sequence of batch functions made of any operations (multi-edge adds and nested batches included), any function raising at any point, crash or I/O failure at any storage call',
  'The only batch test runs two single adds and two single removes, without any read, nested multi-edge operation or failure.',
  [SQL, HG], [('batch_exec with a shared cursor', SQL)],
  [('shared batch cursor', 'set while a batch or multi-edge operation is in progress', SQL)], ['HyperGraph.batch_exec', 'a second connection'])

p('C09', 'Concurrent clients see a linearizable hypergraph',
  'When several connections use the same SQLite file concurrently, every operation (add, remove, erasure, exists, pattern, star and root queries, degree, timestamp, sources, belief operations, removal by pattern, batch, traversal) takes effect at one instant '
  'between its call and its return, so that all results and the final contents are those of some sequential order. This includes two clients adding or removing the same edge, and a crash that hits all of them at once.',
  ['schedules', 'histories', 'crash_points'],
  'every interleaving of two to four clients at lock-acquisition granularity, with stalls and whole-machine crashes',
  'The tests are single-client and single-threaded.',
  [SQL, LITE, HG], [('existence check and write under one write lock', SQL), ('SQLite file locks', LITE)], [PERMS, VERTS], ['results of all operations', 'final contents'])

p('C10', 'Contention resolves in bounded time and no operation leaks a lock',
  'An operation that finds the database locked waits and succeeds if the lock is released within five seconds, and otherwise raises a lock error without effect. After any operation has returned, or has raised an error and that error has been handled, and any traversal has been exhausted or dropped, '
  'its connection holds no lock: every operation of another client then succeeds without waiting.',
  ['schedules', 'fault_sequences', 'histories'],
  'every operation kind on either side, every lock-holding duration, failures included, in simulated time',
  'No test has a second connection, and waiting needs control over the clock.',
  [SQL, LITE], [('cursor closing and commit/rollback at the end of every operation', SQL), ('busy timeout of the connection', LITE)],
  [('file lock of a connection', 'must be released when an operation ends', LITE)], ['a second connection', 'simulated clock'])

p('C11', 'Beliefs and their facts stay consistent',
  'A fact asserted by sources has exactly those sources that asserted it and were not withdrawn since, whatever the order of assertions and withdrawals, single or multiple, direct or in a batch; the fact exists as long as one of them remains and is '
  'removed with the last one, without affecting other facts or sources. Also under crashes, failed operations and concurrent clients that use only belief operations, no source is ever left attached to a fact that does not exist and no fact is left without a source.',
  ['histories', 'crash_points', 'schedules', 'fault_sequences'],
  'every history of belief assertions and withdrawals by one or several clients, crashes and failures at any point',
  'Adding a belief and withdrawing one are several storage steps; the tests run one fixed sequence with two sources and no interruption.',
  [HG, SQL], [('add_belief inserts the fact and its source link together', HG), ('remove_belief removes link, then the unsupported fact', HG)],
  [PERMS], ['HyperGraph.sources', 'HyperGraph.exists'])

p('C12', 'Buffered bulk loading is equivalent to direct loading and loses nothing',
  'After a final flush, adding any sequence of edges and beliefs with any timestamps through the buffering wrapper, with any buffer size, leaves the hypergraph exactly as adding them directly would; flushing an empty buffer is harmless. '
  'Until then the unflushed remainder never exceeds the buffer limit, and a flush that fails loses no buffered edge: retrying it later stores everything.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points', 'configurations'],
  'every sequence of single and multiple adds, every buffer size, failures and crashes during any flush, retries',
  'The buffering wrapper has no test at all.',
  [BATCH, HG], [('buffer and flush', BATCH)], [('buffer', 'edges accepted but not yet stored', BATCH)], ['the wrapped hypergraph', 'buffer length'])

p('C13', 'WordNet import is complete and can be interrupted and repeated',
  'Importing a WordNet corpus stores, as beliefs held by the wordnet source, exactly the part of speech of each synset, its synonyms and every relation of the corpus that the importer covers (of synsets: hypernyms, instance hypernyms, member meronyms, attributes, entailments, causes, also-sees, verb groups, similar-tos; of lemmas: antonyms, pertainyms, derivationally related forms), whatever the size of the corpus. '
  'An import that crashes or fails at any point and is then run again to completion, or is simply repeated, leaves the same knowledge base as a single undisturbed run, and nothing outside the corpus is ever stored.',
  ['inputs', 'crash_points', 'fault_sequences', 'histories'],
  'every corpus shape and size (buffer boundaries included), crash/IO failure at any storage call, corpus read error at any point, any number of reruns',
  'The reader has no test; the corpus is not even installed.',
  ['gb/readers/wordnet.py', BATCH, HG, 'gb/gbrain.py'], [('process_synset over all synsets through the buffering wrapper', 'gb/readers/wordnet.py'), ('idempotent adds', SQL)],
  None, ['resulting hypergraph', 'gbrain wordnet'])

p('C14', 'Opening a hypergraph is idempotent, crash-safe and honest',
  'Opening (through the API or the create command) a new, partially initialised, older-schema or existing SQLite file, any number of times, by any number of clients at once and after a crash at any point of a previous opening, yields a fully usable hypergraph with all previous contents intact. '
  'If the storage prevents this (I/O error, full disk, lock), opening raises an error, or a later opening repairs it; it never returns a hypergraph without its tables.',
  ['crash_points', 'fault_sequences', 'schedules', 'configurations'],
  'every storage call during opening, every earlier partial schema, concurrent openers',
  'The tests only open a fresh or complete database without failures.',
  [LITE, 'gb/gbrain.py'], [('create tables, ignoring the ones that exist', LITE)], [PERMS, VERTS], ['HyperGraph constructor', 'gbrain create'])

p('C15', 'The MySQL backend behaves as the SQLite one, also when its server fails',
  'Against a MySQL server every operation has the same results as on the SQLite backend for the same history. If the connection drops, the server aborts the transaction (deadlock) or a statement (lock timeout), or a reply is lost, the operation '
  'raises and, seen from a new connection, is applied entirely or not at all; acknowledged operations are never lost, and after a server-side abort the same hypergraph stays usable.',
  ['histories', 'fault_sequences'],
  'every single-client history over edges whose texts differ within their first 250 characters and whose symbols lie in the basic multilingual plane, with a network or server failure at any statement of any operation',
  'The MySQL tests need a server and are not run; none provokes a failure.',
  ['gb/hypergraph/mysql.py', SQL, 'gb/gbrain.py'], [('shared SQL implementation with %s placeholders', SQL), ('connection set-up', 'gb/hypergraph/mysql.py')],
  [PERMS, VERTS], ['all operations', 'a second connection'])

p('C16', 'New meanings are fresh',
  'Asking for a new meaning of a root symbol yields a symbol with the same root and a namespace (with the requested prefix) never handed out before, over any number of requests, processes and restarts whose random sources differ, whatever the clock does. '
  'A symbol that already has a namespace is returned unchanged.',
  ['histories', 'configurations'],
  'every history of requests across processes and restarts, clock jumps included',
  'The function has no test, and freshness is a property of the whole history.',
  ['gb/hypergraph/symbol.py'], [('64-bit hash of a 100-character random string', 'gb/hypergraph/symbol.py')], None, ['symbol.new_meaning'])

p('C17', 'Knowledge extraction depends only on the text',
  'The hyperedges an extractor produces for a text, and the stage outputs it reports, depend on that text alone: not on texts read earlier, on the process, or on earlier attempts that failed (language model failing to load, parser failing or interrupted in the middle of a text). '
  'One result is produced per sentence, in order, and the text and the results returned earlier are not changed by later reads.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of texts read by one extractor, with failures at any parser call, compared with a fresh extractor',
  'The extractor tests need a language model and fail here; they read independent texts and never retry after a failure.',
  ['gb/knowledge/extractor.py', 'gb/nlp/parser.py', 'gb/nlp/sentence.py', 'gb/knowledge/stages', 'gb/knowledge/semantic_tree.py'],
  [('one tree per sentence, tokens cached per parsed document', 'gb/nlp/parser.py')], None, ['Extractor.read_text', 'Extractor.outputs'])

p('C18', 'The Wikipedia dump filter streams exactly the main-namespace pages',
  'Filtering a dump writes, unchanged and in order, every line that is outside pages or belongs to a page whose title has no colon, and nothing else, for any chunking of input and output. '
  'If reading or writing fails at any point, the error is reported (not swallowed) and what was written is a prefix of the correct output.',
  ['inputs', 'fault_sequences'],
  'every dump, every chunking (short reads and writes), I/O failure at any byte of input or output',
  'The script has no test.',
  ['python/filter_wikidump.py'], [('line-based state machine', 'python/filter_wikidump.py')], None, ['standard output', 'exit status'])

p('C19', 'Traversal visits every vertex exactly once in one consistent state',
  'Traversing all vertices yields every existing edge and every entity that occurs in an existing edge exactly once, with its degree, as one consistent state of the hypergraph, also when other clients write meanwhile; anything else it yields is an entity seen earlier, with degree zero. '
  'This holds inside a batch as well, including when the visiting code queries the same hypergraph between elements.',
  ['histories', 'schedules', 'fault_sequences'],
  'every stored state, any interleaving of the traversal with queries of the same client and with operations of other clients',
  'The only traversal test reads three edges at once.',
  [SQL], [('lazy iteration over one SELECT', SQL)], [VERTS], ['HyperGraph.f_all'])

p('C20', 'Edges and their textual form convert back and forth without loss',
  'Converting an edge to its textual form and back yields an equal edge. ' + DOMAIN,
  ['inputs'], 'every edge', 'The tests convert six fixed edges.', [EDGE], [('edge2str / str2edge', EDGE)])
p('C21', 'Symbol operations respect the root/namespace structure',
  'A symbol built from a root and a namespace has that root and that namespace, negating a symbol or an edge twice gives it back, and normalising any string yields a valid symbol.',
  ['inputs'], 'every symbol', 'The tests use a handful of symbols.', ['gb/hypergraph/symbol.py'], [('parts / build / negative / str2symbol', 'gb/hypergraph/symbol.py')])
p('C22', 'The extraction stages build the intended hyperedge for a parsed sentence',
  'For any dependency parse, the extraction stages terminate with a hyperedge that mentions every content word of the sentence, groups compounds and entities, and nests relations as their documented examples do.',
  ['inputs'], 'every dependency tree', 'The tests are eight sentences and need a language model.', ['gb/knowledge/stages', 'gb/knowledge/semantic_tree.py'], [('alpha to epsilon stages', 'gb/knowledge/stages')])
p('C23', 'Neighbourhood and intersection queries return the connecting edges',
  'The neighbourhood of an entity at depth n is the set of edges reachable within n steps of shared participants. Intersecting seed entities returns exactly the edges whose participants all lie on walks of minimal length connecting all seeds.',
  ['inputs'], 'every hypergraph and seed set', 'There is no test.', ['gb/hypergraph/queries.py', HG], [('walk enumeration', 'gb/hypergraph/queries.py')])
p('C24', 'The null backend accepts everything and stores nothing',
  'Every operation on the null backend succeeds, reads see an empty hypergraph.',
  ['inputs'], 'every operation sequence', 'The tests cover each operation once.', ['gb/hypergraph/null.py'], [('constant results', 'gb/hypergraph/null.py')])
p('C25', 'The Clojure server and browser interface reflect the same knowledge base',
  'The legacy Clojure hypergraph, web handlers and ClojureScript interface read and write the same knowledge base with the same semantics as the Python library.',
  ['inputs', 'histories'], 'every request', 'They have no tests that run here.', ['src/main/clojure/graphbrain', 'src/main/cljs/graphbrain'], [('web handlers', 'src/main/clojure/graphbrain/web')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
