"""Run counts and descriptions per property."""

REAL = ['gb.hypergraph.* (the code under test, imported from the working tree)', 'Python sqlite3 module', 'SQLite library']
STUB = ['file system: simulated VFS (disk contents, durability, locks, sleeping, randomness, time)', 'time, os.urandom, random seeding']
NOTE = ('Seeded exploration, not exhaustive: it holds on the simulated executions of this seed and tier. Trusted: the simulated disk/lock/clock model (sim/vfs.py), '
        'the reference model (sim/model.py), SQLite itself (which runs for real).')


def s(quick, thorough, over, rule, real=REAL, stub=STUB, assumes=(), level='exploration', note=NOTE, **kw):
    d = dict(quick=quick, thorough=thorough, over=over, rule=rule, real=list(real), stub=list(stub), assumes=list(assumes), level=level, note=note)
    d.update(kw)
    return d


VFS_ASSUMES = ['the simulated disk honours sync (data synced is not lost), sectors of 512 bytes are written atomically or not at all, deleting a file is durable on return',
               'SQLite itself is trusted as a component, but runs for real']
HIST = ('Seeded random histories over small vocabularies (symbols sharing prefixes, integers, floats, nested edges), with restarts, crashes and '
        'failing operations; every result and the full state are compared with a reference model.')
SCHED = 'sequence of client numbers that the scheduler let run (preemption at lock requests, busy-waits, batch functions, traversal steps) and linearization found'

SPECS = {
    'C01': s(9000, 400000, 'histories with restarts, crashes and failing operations, against a reference model', HIST, assumes=VFS_ASSUMES),
    'C02': s(6000, 400000, 'histories with restarts, crashes and failing operations, against a reference model', HIST, assumes=VFS_ASSUMES),
    'C03': s(6000, 400000, 'histories and client schedules with restarts, crashes and failing operations, against a reference model',
             HIST + ' A quarter of the runs are concurrent histories of 2-4 clients.', assumes=VFS_ASSUMES, orders=SCHED),
    'C04': s(9000, 400000, 'histories with restarts, crashes and failing operations, against a reference model', HIST, assumes=VFS_ASSUMES),
    'C05': s(7000, 300000, 'histories with crashes (kill, power loss with lost and torn sectors), against what was acknowledged and a reference model',
             'Histories of operations (single, multiple, beliefs, batches, buffered loads; some failing) with crashes between them; what was observable before a crash, and what the '
             'reference model says was acknowledged, has to be there after it.', assumes=VFS_ASSUMES),
    'C06': s(3500, 200000, 'crash points inside operations, against a fault-free twin execution',
             'For one operation on one random state: crashes at seeded storage calls of it (kill, power loss with lost, torn sectors), reopening, comparison of everything observable with '
             'before and after in a fault-free execution; then further operations.', assumes=VFS_ASSUMES,
             orders='(operation, class and number of the storage call hit, crash mode, outcome)'),
    'C07': s(3000, 200000, 'failures (I/O errors, short writes, full disk, locks, memory, interrupts, unstorable elements) at storage calls and statements, against a fault-free twin execution',
             'For one operation on one random state: failures at seeded storage calls or statement boundaries, comparison of everything observable with before and after in a fault-free '
             'execution; then further operations on the same object, checked for correctness, visibility and durability.', assumes=VFS_ASSUMES,
             orders='(operation, failure, outcome)'),
    'C08': s(3000, 200000, 'batches, raising functions, failures, crashes and client schedules, against a twin execution outside of a batch',
             'Random batches on random states: effects and results compared with the same operations outside of a batch on a twin; a second connection looks before every function; '
             'functions raise, storage calls fail, machines crash; a tenth of the runs are concurrent.', assumes=VFS_ASSUMES, orders=SCHED),
    'C09': s(24000, 600000, 'schedules of 2-4 clients with stalls, crashes and I/O errors; linearizability against a reference model',
             'Random concurrent histories under a deterministic scheduler; a run is linearizable if a sequential order consistent with real time explains every result and the final contents.',
             assumes=VFS_ASSUMES + ['preemption at storage-lock requests, busy-waits, operation starts, batch functions and traversal steps (between them a client has no interaction with others)'], orders=SCHED),
    'C10': s(10000, 500000, 'lock holders, durations, failures and schedules in simulated time',
             'Histories in which another process holds a shared, reserved or exclusive lock for a simulated duration, operations fail, traversals are dropped; after each step another client has to be '
             'able to lock the file at once. Three tenths of the runs are concurrent histories.', assumes=VFS_ASSUMES + ['the error object of a failed operation is not kept alive with its stack frames'],
             orders='(lock level, duration, operation, outcome, waited); ' + SCHED),
    'C11': s(7000, 400000, 'histories and schedules of belief operations with crashes, restarts and failures, against a reference model',
             'Random histories of belief operations (single, multiple, in batches; three quarters use belief operations only) with crashes, restarts and failing operations; sources, facts and their consistency are '
             'compared with a reference model. Three tenths of the runs are concurrent histories of 2-4 clients.', assumes=VFS_ASSUMES, orders=SCHED),
    'C12': s(4500, 400000, 'load sequences, buffer sizes, failing flushes, retries and crashes with reloading, against a direct load on a twin',
             'Random sequences of adds and beliefs with any timestamps through the wrapper with a random buffer size; flushes fail (I/O, disk full, lock, interrupt) and are retried, machines crash and the load is '
             'run again; everything observable is compared with a direct load on a twin and a reference model; the unflushed remainder is measured after every call.', assumes=VFS_ASSUMES,
             orders='(buffer limit, sequence of calls, number of restarts)'),
    'C13': s(1800, 150000, 'generated corpora, crashes, storage failures, interrupts and corpus read errors at any point, repeated imports, against the corpus itself and an undisturbed import',
             'A random corpus (sizes around the buffer limit included) is imported into a hypergraph with other contents; the import is disturbed at a seeded storage call, statement or corpus read, repeated (through the API '
             'or the command line), then run to completion; contents are compared with those that the corpus prescribes and with an undisturbed import.', assumes=VFS_ASSUMES,
             real=REAL + ['gb.readers.wordnet', 'gb.gbrain (command line, in a quarter of the runs)', 'click'], stub=STUB + ['nltk.corpus.wordnet: generated corpus with the same interface'],
             orders='(corpus size, disturbances, interface)'),
    'C14': s(12000, 600000, 'initial file states, crashes, failures and locks at storage calls of an opening, and schedules of concurrent openers, against a reference model of the contents',
             'A file that is absent, empty, partially initialised, of an older schema, complete, with a hot journal, or no database at all is opened repeatedly (API or create command) with crashes, I/O errors, a full disk, '
             'locks or interrupts at seeded calls, or by 2-4 clients at once; every opening that returns has to give a usable hypergraph with all contents.', assumes=VFS_ASSUMES,
             real=REAL + ['gb.gbrain (create command)', 'click'], orders='(file state, interface, failure and its call, outcome); client schedules'),
    'C15': s(2000, 300000, 'histories with dropped connections, lost replies, server aborts and crashes at any request, against the SQLite backend on a twin',
             'Random histories run against a simulated MySQL server and the SQLite backend; connections drop before a request or after it (commits included), replies are lost, the server aborts transactions (deadlock) or '
             'statements (lock timeout, kill, full, read-only), crashes and restarts, refuses connections, or has a partial schema; results and everything observable from new connections are compared.',
             real=['gb.hypergraph.* (the code under test, imported from the working tree)', 'MySQLdb cursors, literals, escaping, error classes', 'SQLite backend and library (the twin)'],
             stub=['C connection and MySQL server (sim/mysqlsim.py, tables in in-memory SQLite databases)', 'file system of the twin: simulated VFS'],
             assumes=['the simulated server follows the documented behaviour of MySQL 5.7/MariaDB 10 with InnoDB'], orders='(fault, operation, request, outcome)'),
    'C16': s(400, 20000, 'processes, restarts and clocks: uniqueness of all symbols handed out', 'Requests for new meanings by 1-5 simulated processes (modules loaded anew, random sources seeded anew) that restart, share '
             'process numbers, and whose clocks stand still, jump or go back; one run in 25 makes 50000 (thorough: one in 13 makes 90000) requests for one root, so that a space of 32 bits or less collides. Every symbol is compared with all earlier ones of the run.',
             real=['gb.hypergraph.symbol'], stub=['time, os.urandom, random and numpy seeds, process numbers'], assumes=['random sources of different processes differ (as the property says)'],
             orders='(kind of request, process, symbol, number of requests so far)'),
    'C17': s(12000, 1000000, 'histories of reads by several extractors with model load failures, parse failures and interrupts at any access, stage and output failures, against a new extractor in this and another process',
             'Random texts (parsed by a simulated language model whose random projective dependency trees are a function of the text) are read by 1-3 extractors in random order, with failures injected while the model loads, parses, at any '
             'access to the parse, inside of a stage or at an output; every result, all stage outputs and earlier results are compared with those of new extractors, also in a process with other string hashes.',
             real=['gb.knowledge.*', 'gb.nlp.*', 'asciitree'], stub=['spaCy: simulated language model (sim/nlpsim.py)'], assumes=['the language model is a function of the text'],
             orders='(sequence of operations, extractor, text; stages)'),
    'C18': s(20000, 1000000, 'dumps, chunkings and failures (I/O errors, full disk, closed pipe, interrupts, memory) at any byte of input or output, against the output prescribed by construction',
             'Random dumps (main and other namespaces, lines outside of pages, long lines, other line separators of Unicode, no final newline) are filtered by the script, run as from the command line on simulated streams with short reads and '
             'writes and failures at any byte; each write is checked to continue a prefix of the right output, and each failure to be reported.',
             real=['python/filter_wikidump.py', 'Python text and buffered streams'], stub=['raw input and output streams, open, sys.stdout, sys.argv'],
             assumes=['a page has its <page>, <title> and </page> on lines of their own, as MediaWiki writes them; no carriage returns'],
             orders='(kinds of pages, chunk sizes, failure)'),
    'C19': s(12000, 400000, 'traversals with queries, second traversals and writes of other clients between any elements, failures, interrupts and dropped traversals, and client schedules, against a reference model',
             'Random states (up to some thousand vertices) are traversed directly or in a batch; between elements and in the visiting function the same client queries, others write or read, storage calls fail; the result has to be '
             'the contents at one instant of the traversal. A third of the runs are concurrent histories of 2-4 clients with traversals.', assumes=VFS_ASSUMES,
             orders='(number of elements, kinds of steps, states passed through, batch, failure); ' + SCHED),
}
