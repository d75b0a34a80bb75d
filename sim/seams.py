"""Puts every nondeterministic thing that graphbrain touches behind the simulator, without any change to /repo.

Import order matters: call install(repo) before anything of gb is imported.
"""
import os
import random
import sqlite3
import sys
import time as _time

from sim import simfs, vfs

REAL = {'time': _time.time, 'sleep': _time.sleep, 'perf': _time.perf_counter, 'cpu': _time.process_time,
        'connect': sqlite3.connect, 'urandom': os.urandom}


class Refused(Exception):
    """Stands for an error of SQLite at a statement, which leaves the transaction as it is."""


EXCS = {None: KeyboardInterrupt, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'refused': Refused}


class Interrupts(object):
    """Raises an exception at the n-th statement boundary while armed."""

    def __init__(self):
        self.armed = None
        self.count = 0
        self.fired = 0
        self.counting = False
        self.trace = None
        self.kind = 'interrupt'

    def reset(self):
        self.armed = None
        self.count = 0
        self.fired = 0
        self.counting = False

    def arm(self, nth, exc):
        self.kind = 'refused_statement' if exc == 'refused' else 'interrupt'
        self.armed = (nth, EXCS.get(exc, exc))
        self.count = 0
        self.fired = 0
        self.counting = True

    def start_count(self):
        self.armed = None
        self.count = 0
        self.fired = 0
        self.counting = True

    def disarm(self):
        self.armed = None
        self.counting = False
        return self.count

    def boundary(self, what):
        if not self.counting:
            return
        n = self.count
        self.count += 1
        if self.armed is not None and n >= self.armed[0]:
            exc = self.armed[1]
            if exc is Refused and what.startswith('after'):
                # a statement that failed did nothing
                return
            self.armed = None
            self.fired += 1
            if exc is Refused:
                raise sqlite3.OperationalError('disk I/O error')
            raise exc('simulated, at %s' % what)


INT = Interrupts()


class SimCursor(sqlite3.Cursor):
    def execute(self, *args):
        INT.boundary('before execute')
        res = sqlite3.Cursor.execute(self, *args)
        INT.boundary('after execute')
        return res

    def executemany(self, *args):
        INT.boundary('before executemany')
        res = sqlite3.Cursor.executemany(self, *args)
        INT.boundary('after executemany')
        return res

    def executescript(self, *args):
        INT.boundary('before executescript')
        res = sqlite3.Cursor.executescript(self, *args)
        INT.boundary('after executescript')
        return res


class SimConnection(sqlite3.Connection):
    def cursor(self, *args, **kwargs):
        if not args and 'factory' not in kwargs:
            kwargs['factory'] = SimCursor
        return sqlite3.Connection.cursor(self, *args, **kwargs)

    def commit(self):
        INT.boundary('before commit')
        sqlite3.Connection.commit(self)
        INT.boundary('after commit')

    def __exit__(self, et, ev, tb):
        # same as the original, through our commit
        if et is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()
                raise
        else:
            self.rollback()
        return False


def sim_connect(*args, **kwargs):
    kwargs.setdefault('factory', SimConnection)
    kwargs['check_same_thread'] = False
    return REAL['connect'](*args, **kwargs)


class MySQLSeam(object):
    """Where MySQLdb.connect goes; the scenario sets the server."""
    server = None


MYSQL = MySQLSeam()


def sim_mysql_connect(*args, **kwargs):
    if MYSQL.server is None:
        raise RuntimeError('no simulated MySQL server in this run')
    return MYSQL.server.connect(*args, **kwargs)


class SpacySeam(object):
    loader = None


SPACY = SpacySeam()
CORPUS = None
_installed = None


def _now():
    return vfs.WORLD.now


def _now_ns():
    return int(vfs.WORLD.now * 1e9)


def _sleep(seconds):
    vfs.WORLD.sleep(float(seconds))


def _urandom(n):
    rng = vfs.WORLD.rng
    return rng.randbytes(n) if rng is not None else REAL['urandom'](n)


def fake_module(name, **attrs):
    """Stands in for a heavy library that the property at hand does not run."""
    import types
    mod = types.ModuleType(name)
    mod.__path__ = []
    for k, v in attrs.items():
        setattr(mod, k, v)
    sys.modules[name] = mod
    parent, _, child = name.rpartition('.')
    if parent:
        setattr(sys.modules[parent], child, mod)


def spacy_load(name, *args, **kwargs):
    if SPACY.loader is None:
        raise OSError('no simulated language model in this run')
    return SPACY.loader(name)


def install(repo, nltk=False, spacy=False):
    """Installs all seams, then makes gb importable from repo."""
    global _installed, CORPUS
    if _installed:
        return
    _installed = repo
    sys.dont_write_bytecode = True
    # heavy libraries first, with the real clock and random source
    import click
    import click.testing
    import numpy
    import MySQLdb
    import MySQLdb.constants
    import uuid
    import tempfile
    import logging
    vfs.install()
    simfs.install()
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect
    MySQLdb.connect = sim_mysql_connect
    MySQLdb.Connect = sim_mysql_connect
    MySQLdb.Connection = sim_mysql_connect
    from sim import wnsim
    CORPUS = wnsim.WordNet()
    if nltk:
        import nltk.corpus
        nltk.corpus.wordnet = CORPUS
    else:
        fake_module('nltk')
        fake_module('nltk.corpus', wordnet=CORPUS)
    if spacy:
        import spacy
        spacy.load = spacy_load
    else:
        fake_module('spacy', load=spacy_load)
    _time.time = _now
    _time.time_ns = _now_ns
    _time.monotonic = _now
    _time.monotonic_ns = _now_ns
    _time.perf_counter = _now
    _time.sleep = _sleep
    os.urandom = _urandom
    random._urandom = _urandom
    os.getpid = lambda: 4242
    sys.path.insert(0, repo)
    sys.pycache_prefix = '/dev/null/none'   # no stale bytecode of the code under test
    import gb.hypergraph.hypergraph
    where = os.path.realpath(gb.hypergraph.hypergraph.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError('gb was imported from %s instead of %s' % (where, repo))
