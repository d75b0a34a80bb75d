"""A simulated MySQL server and the low-level connection to it.

What the code under test uses of MySQLdb runs for real (cursors, literals, escaping, error classes); the C connection
object and the server are replaced by this.  Statements arrive as bytes, as on the wire; tables live in in-memory SQLite
databases.  Modelled: affected rows (found or changed), collations and their padding, the unique prefix of the primary key,
character sets and lengths, autocommit, implicit commits by DDL, transactions with snapshots, write locks, error numbers,
lost connections and replies, statements and transactions aborted by the server."""
import re
import sqlite3
import unicodedata

import _mysql
import _mysql_exceptions as ex
from MySQLdb import cursors
from MySQLdb.connections import Connection as RealConnection
from MySQLdb.constants import CLIENT
from MySQLdb.converters import conversions

from sim.seams import REAL

PROG = (1064, 1146, 1149, 2014)
INTEG = (1062, 1048)
DATA = (1366, 1406, 1264)
RE_STR = re.compile(r"'((?:[^'\\]|\\.|'')*)'", re.S)
NOT_MYSQL = re.compile(r'\b(INSERT|UPDATE)\s+OR\b|\bON\s+CONFLICT\b|\b(MAX|MIN)\s*\([^()]*,|\bGLOB\b|\b_?ROWID_?\b|\bOID\b|\bSQLITE_|==|\bPRAGMA\b|\bTYPEOF\s*\('
                       r'|\bRETURNING\b|\bIS\s+(?!(NOT\s+)?(NULL|TRUE|FALSE|UNKNOWN)\b)|\bLAST_INSERT_ROWID\b|\bCHANGES\s*\(|\bINDEXED\s+BY\b|\bCOLLATE\s+(NOCASE|BINARY|RTRIM)\b'
                       r'|\bLIMIT\s+-|\bAS\s+(TEXT|INTEGER|REAL|BLOB)\b|\bPRINTF\s*\(|\bTOTAL\s*\(|\bINSERT\s+INTO\s+\w+\s+DEFAULT\b|\bUPSERT\b|\bNULLS\s+(FIRST|LAST)\b', re.I)
INTS = {'TINYINT': 7, 'SMALLINT': 15, 'MEDIUMINT': 23, 'INT': 31, 'INTEGER': 31, 'BIGINT': 63}
UNESC = {'0': '\0', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a'}


def error(code, msg):
    cls = ex.ProgrammingError if code in PROG else ex.IntegrityError if code in INTEG else ex.DataError if code in DATA else ex.OperationalError
    return cls(code, msg)


def unescape(s):
    if '\\' not in s and "''" not in s:
        return s
    return re.sub(r"\\(.)|''", lambda m: "'" if m.group(1) is None else UNESC.get(m.group(1), m.group(1)), s, flags=re.S)


def general_ci(s):
    return ''.join(c for c in unicodedata.normalize('NFD', s) if not unicodedata.combining(c)).upper().rstrip(' ')


def ci(a, b):
    a, b = general_ci(a), general_ci(b)
    return (a > b) - (a < b)


def new_db():
    db = REAL['connect'](':memory:', isolation_level=None, check_same_thread=False, cached_statements=512)
    db.create_collation('GENERAL_CI', ci)
    for name, n, f in FUNCTIONS:
        db.create_function(name, n, f, deterministic=True)
    return db


def like(pattern, value, escape='\\'):
    if pattern is None or value is None:
        return None
    out, i, pattern = '', 0, str(pattern)
    while i < len(pattern):
        c = pattern[i]
        if c == escape and i + 1 < len(pattern):
            i += 1
            out += re.escape(pattern[i])
        else:
            out += '.*' if c == '%' else '.' if c == '_' else re.escape(c)
        i += 1
    return int(re.match(out + r'\Z', str(value), re.S) is not None)


def no_null(f):
    return lambda *args: None if any(a is None for a in args) else f(*args)


FUNCTIONS = [('like', 2, like), ('like', 3, like), ('greatest', -1, no_null(max)), ('least', -1, no_null(min)), ('if', 3, lambda c, a, b: a if c else b),
             ('concat', -1, no_null(lambda *args: ''.join(str(a) for a in args))), ('char_length', 1, no_null(lambda s: len(str(s)))),
             ('length', 1, no_null(lambda s: len(str(s).encode('utf-8', 'surrogatepass'))))]


def copy_db(src):
    db = new_db()
    src.backup(db)
    return db


def int_range(name, kind, tail):
    bits = INTS.get(kind.upper())
    if bits is None:
        raise error(1064, 'Unknown type %r' % kind)
    low, high = -(1 << bits), (1 << bits) - 1
    if 'UNSIGNED' in tail.upper():
        low, high = 0, 2 * high + 1
    if bits == 63:
        return ''
    return ' CHECK (%s IS NULL OR %s BETWEEN %d AND %d)' % (name, name, low, high)


class Server(object):
    def __init__(self):
        self.master = new_db()
        self.version = 0
        self.tables = {}       # name -> dict(charset, length of id)
        self.holder = None     # connection that holds the write locks
        self.conns = []
        self.calls = 0         # requests since the last reset
        self.log = []
        self.fault = None      # dict(kind, nth)
        self.fired = 0
        self.refuse = None     # error number for new connections
        self.charset = 'utf8mb4'
        self.waited = 0

    def snapshot(self):
        return copy_db(self.master), {k: dict(v) for k, v in self.tables.items()}

    def restore(self, snap):
        for c in self.conns:
            c.drop()
        self.conns = []
        self.master = copy_db(snap[0])
        self.tables = {k: dict(v) for k, v in snap[1].items()}
        self.version += 1

    def reset(self):
        self.calls = 0
        self.log = []
        self.fault = None
        self.fired = 0

    def crash(self):
        """Server crash and restart: committed data survive."""
        for c in self.conns:
            c.drop()
        self.conns = []
        self.version += 1

    def connect(self, *args, **kwargs):
        if self.refuse is not None:
            self.fired += 1
            raise error(self.refuse, 'simulated: connection refused')
        c = Connection(self, *args, **kwargs)
        self.conns.append(c)
        return c

    def request(self, what):
        """Every request to the server passes here; returns the fault that hits it, if any."""
        n = self.calls
        self.calls += 1
        self.log.append(what[:12])
        f = self.fault
        if f is not None and n >= f['nth'] and n < f['nth'] + f.get('count', 1):
            if f.get('only') and not what.upper().lstrip().startswith(tuple(f['only'])):
                return None
            self.fired += 1
            return f['kind']
        return None


class Result(object):
    def __init__(self, rows, names):
        self.rows = rows
        self.names = names
        self.pos = 0
        self.has_next = False

    def describe(self):
        return tuple((n, 253, None, None, None, None, 1) for n in self.names)

    def field_flags(self):
        return tuple(0 for n in self.names)

    def fetch_row(self, maxrows=1, how=0):
        rows = self.rows[self.pos:] if maxrows == 0 else self.rows[self.pos:self.pos + maxrows]
        self.pos += len(rows)
        if how == 0:
            return tuple(tuple(r) for r in rows)
        return tuple(dict(zip(self.names, r)) for r in rows)

    def num_rows(self):
        return len(self.rows)


class Connection(object):
    """Stands for the C connection; what MySQLdb implements in Python is taken from there."""
    literal = RealConnection.literal
    _tuple_literal = RealConnection._tuple_literal
    _bytes_literal = RealConnection._bytes_literal
    cursor = RealConnection.cursor
    begin = RealConnection.begin
    default_cursor = cursors.Cursor
    errorhandler = RealConnection.errorhandler
    waiter = None
    for _n in ('Warning', 'Error', 'InterfaceError', 'DatabaseError', 'DataError', 'OperationalError', 'IntegrityError', 'InternalError', 'ProgrammingError', 'NotSupportedError'):
        locals()[_n] = getattr(ex, _n)

    def __init__(self, server, host=None, user=None, passwd=None, db=None, port=0, **kw):
        self.server = server
        self.alive = True
        self.closed = False
        self.reconnect = False     # set by ping(True): the client library connects again by itself, but not in a transaction
        self.in_trans = False
        self.tx = None
        self.auto = True           # the server's default
        self.flags = kw.get('client_flag', 0) | CLIENT.MULTI_STATEMENTS | CLIENT.MULTI_RESULTS
        self.cursorclass = kw.get('cursorclass', cursors.Cursor)
        self._binary_prefix = False
        charset = kw.get('charset') or server.charset
        self.charset = charset
        self.encoding = 'utf8' if charset == 'utf8mb4' else charset
        conv = kw.get('conv', conversions)
        self.encoders = {k: v for k, v in conv.items() if type(k) is not int}
        self.encoders[bytes] = lambda o, d=None: self.string_literal(o)
        self.encoders[str] = lambda o, d=None: self.string_literal(str(o).encode(self.encoding))
        self.messages = []
        self._result = None
        self._affected = 0
        self._insert_id = 0
        if kw.get('autocommit', False) is not None:
            self.autocommit(kw.get('autocommit', False))
        if kw.get('init_command'):
            self.query(kw['init_command'].encode())

    # -- what MySQLdb's C type provides -----------------------------------------------------------------------
    def string_literal(self, b):
        return _mysql.string_literal(b)

    def escape(self, o, encoders):
        return _mysql.escape(o, encoders)

    def escape_string(self, b):
        return _mysql.escape_string(b)

    def character_set_name(self):
        return self.charset

    def set_character_set(self, charset):
        self.query(b'SET NAMES ' + charset.encode())
        self.charset = charset
        self.encoding = 'utf8' if charset == 'utf8mb4' else charset

    def get_autocommit(self):
        return self.auto

    def autocommit(self, on):
        if self.auto != bool(on):
            self.command('SET autocommit=%d' % bool(on))

    def commit(self):
        self.command('COMMIT')

    def rollback(self):
        self.command('ROLLBACK')

    def ping(self, reconnect=False):
        if reconnect:
            self.reconnect = True
        self.command('SELECT 1')

    def close(self):
        if self.closed:
            raise ex.ProgrammingError('closing a closed connection')
        self.closed = True
        self.drop()

    @property
    def open(self):
        return not self.closed

    def __enter__(self):
        return RealConnection.__enter__(self)

    def __exit__(self, *a):
        return RealConnection.__exit__(self, *a)

    def affected_rows(self):
        return self._affected

    def insert_id(self):
        return self._insert_id

    def warning_count(self):
        return 0

    def show_warnings(self):
        return ()

    def info(self):
        return None

    def next_result(self):
        if self.closed:
            raise ex.OperationalError(2006, '')
        return -1

    def store_result(self):
        r = self._result
        self._result = None
        return r

    use_result = store_result

    def thread_id(self):
        return 1 + self.server.conns.index(self)

    def get_server_info(self):
        return '5.7.18'

    def query(self, query):
        if isinstance(query, str):
            query = query.encode(self.encoding)
        text = bytes(query).decode(self.encoding if self.encoding != 'ascii' else 'latin1')
        self.command(text)

    # -- the wire and the server -----------------------------------------------------------------------------------
    def drop(self):
        """The connection ends; the server rolls back what is open."""
        self.in_trans = self.alive and self.tx is not None
        self.alive = False
        self.end()

    def revived(self):
        """As libmysqlclient with MYSQL_OPT_RECONNECT: a new session, once the loss of a transaction was reported."""
        if not self.reconnect:
            return False
        if self.in_trans:
            self.in_trans = False
            return False
        self.alive = True
        self.auto = True
        return True

    def end(self):
        self.tx = None
        if self.server.holder is self:
            self.server.holder = None

    def command(self, text):
        if self.closed:
            raise ex.OperationalError(2006, '')
        if not self.alive and not self.revived():
            raise error(2006, 'MySQL server has gone away')
        fault = self.server.request(text)
        if fault == 'drop':
            self.drop()
            if self.revived():
                return self.execute(text)
            raise error(2006, 'MySQL server has gone away')
        if fault == 'drop_lost':
            self.drop()
            raise error(2013, 'Lost connection to MySQL server during query')
        if fault == 'crash':
            self.server.crash()
            raise error(2013, 'Lost connection to MySQL server during query')
        if fault in ('deadlock', 'deadlock_nowait'):
            self.end()
            raise error(1213, 'Deadlock found when trying to get lock; try restarting transaction')
        if fault == 'lock_wait' and not text.upper().startswith(('COMMIT', 'ROLLBACK', 'BEGIN', 'SET')):
            self.server.waited += 50
            raise error(1205, 'Lock wait timeout exceeded; try restarting transaction')
        if fault == 'killed' and not text.upper().startswith(('ROLLBACK', 'SET')):
            raise error(1317, 'Query execution was interrupted')
        if fault == 'full' and text.upper().startswith(('INSERT', 'UPDATE', 'CREATE', 'ALTER', 'DELETE', 'REPLACE')):
            raise error(1114, 'The table is full')
        if fault == 'readonly' and text.upper().startswith(('INSERT', 'UPDATE', 'CREATE', 'ALTER', 'DELETE', 'REPLACE')):
            raise error(1290, 'The MySQL server is running with the --read-only option so it cannot execute this statement')
        self.execute(text)
        if fault == 'reply':
            self.drop()
            raise error(2013, 'Lost connection to MySQL server during query')
        if fault == 'reply_crash':
            self.server.crash()
            raise error(2013, 'Lost connection to MySQL server during query')

    def execute(self, text):
        self._result = None
        self._affected = 0
        values = []

        def lit(m):
            values.append(unescape(m.group(1)))
            return '?'
        sql = RE_STR.sub(lit, text).strip().rstrip(';').strip()
        word = sql.split(None, 1)[0].upper() if sql else ''
        up = ' '.join(sql.upper().split())
        if word in ('BEGIN', 'START'):
            self.commit_tx()
            self.start()
        elif word == 'COMMIT':
            self.commit_tx()
        elif word == 'SAVEPOINT' or word == 'RELEASE' or up.startswith(('ROLLBACK TO', 'ROLLBACK WORK TO')):
            self.savepoint(word, sql.split()[-1].strip('`').lower())
        elif word == 'ROLLBACK':
            self.end()
        elif word == 'SET':
            if up.replace(' ', '').startswith('SETAUTOCOMMIT='):
                on = up.replace(' ', '').endswith('=1')
                if on and not self.auto:
                    self.commit_tx()
                self.auto = on
        elif word in ('CREATE', 'ALTER', 'DROP', 'TRUNCATE'):
            self.commit_tx()
            self.ddl(word, sql)
        elif word in ('SELECT', 'INSERT', 'UPDATE', 'DELETE', 'REPLACE', 'SHOW'):
            self.dml(word, sql, values)
        else:
            raise error(1064, 'You have an error in your SQL syntax near %r' % sql[:40])

    def start(self):
        self.tx = dict(db=None, version=None, wrote=False, saves=[], n=0)

    def savepoint(self, word, name):
        if self.tx is None:
            if word == 'SAVEPOINT' and not self.auto:
                self.start()
            elif word == 'SAVEPOINT':
                return
        saves = self.tx['saves'] if self.tx is not None else []
        at = [i for i, (n, uid) in enumerate(saves) if n == name]
        if word == 'SAVEPOINT':
            if at:
                del saves[at[0]]
            self.tx['n'] += 1
            saves.append((name, self.tx['n']))
            if self.tx['db'] is not None:
                self.tx['db'].execute('SAVEPOINT s%d' % self.tx['n'])
            return
        if not at:
            raise error(1305, 'SAVEPOINT %s does not exist' % name)
        uid = saves[at[0]][1]
        if self.tx['db'] is not None:
            self.tx['db'].execute('%s s%d' % ('RELEASE' if word == 'RELEASE' else 'ROLLBACK TO', uid))
        del saves[at[0] + (0 if word == 'RELEASE' else 1):]

    def commit_tx(self):
        tx = self.tx
        if tx is not None and tx['wrote']:
            if tx['db'].in_transaction:
                tx['db'].execute('COMMIT')
            self.server.master = tx['db']
            self.server.version += 1
        self.end()

    def lock(self):
        s = self.server
        if s.holder is not None and s.holder is not self:
            s.waited += 50
            raise error(1205, 'Lock wait timeout exceeded; try restarting transaction')
        if self.tx is not None:
            s.holder = self

    def view(self, write):
        s = self.server
        if write:
            self.lock()
        if self.tx is None and not self.auto:
            self.start()
            if write:
                s.holder = self
        tx = self.tx
        if tx is None:
            if write:
                s.version += 1
            return s.master
        if tx['db'] is None or (write and not tx['wrote'] and tx['version'] != s.version):
            tx['db'] = copy_db(s.master)
            tx['version'] = s.version
            for name, uid in tx['saves']:
                tx['db'].execute('SAVEPOINT s%d' % uid)
        if write:
            tx['wrote'] = True
        return tx['db']

    def ddl(self, word, sql):
        # (statements that change nothing wait for nobody)
        s = self.server
        m = re.match(r'CREATE TABLE (IF NOT EXISTS )?(\w+) \((.*)\)(.*)$', sql, re.I | re.S)
        if m:
            name, body, tail = m.group(2), m.group(3), m.group(4).upper()
            if name in s.tables:
                if m.group(1):
                    return
                raise error(1050, "Table '%s' already exists" % name)
            self.lock()
            charset = 'utf8mb4' if 'UTF8MB4' in tail else 'utf8' if 'UTF8' in tail else 'latin1'
            coll = 'RTRIM' if '_BIN' in tail else 'GENERAL_CI'
            pk = re.search(r'PRIMARY KEY \((\w+)\((\d+)\)\)', body, re.I)
            body = re.sub(r',?\s*PRIMARY KEY \(\w+\(\d+\)\)', '', body, flags=re.I)
            n = re.search(r'id VARCHAR\((\d+)\)', body, re.I)
            body = re.sub(r'VARCHAR\(\d+\)', 'TEXT COLLATE ' + coll, body, flags=re.I)
            s.master.execute('CREATE TABLE %s (%s)' % (name, body))
            if pk:
                s.master.execute('CREATE UNIQUE INDEX pk_%s ON %s (substr(%s, 1, %s) COLLATE %s)' % (name, name, pk.group(1), pk.group(2), coll))
                s.master.execute('CREATE INDEX id_%s ON %s (%s)' % (name, name, pk.group(1)))
            s.tables[name] = dict(charset=charset, length=int(n.group(1)) if n else 2 ** 16)
        else:
            m = re.match(r'ALTER TABLE (\w+) ADD (?:COLUMN )?(\w+) (\w+)(.*)$', sql, re.I | re.S)
            if m:
                if m.group(1) not in s.tables:
                    raise error(1146, "Table '%s' doesn't exist" % m.group(1))
                if m.group(2).lower() in [r[1].lower() for r in s.master.execute('PRAGMA table_info(%s)' % m.group(1))]:
                    raise error(1060, "Duplicate column name '%s'" % m.group(2))
                self.lock()
                try:
                    s.master.execute('ALTER TABLE %s ADD COLUMN %s INTEGER%s' % (m.group(1), m.group(2), m.group(4)) + int_range(m.group(2), m.group(3), m.group(4)))
                except sqlite3.OperationalError as e:
                    raise error(1064, str(e))
            else:
                self.lock()
                m = re.match(r'(?:TRUNCATE|TRUNCATE TABLE) (\w+)$', sql, re.I)
                if m:
                    s.master.execute('DELETE FROM %s' % m.group(1))
                else:
                    m = re.match(r'DROP TABLE (IF EXISTS )?(\w+)$', sql, re.I)
                    if not m:
                        raise error(1064, 'You have an error in your SQL syntax near %r' % sql[:60])
                    if m.group(2) in s.tables:
                        del s.tables[m.group(2)]
                        s.master.execute('DROP TABLE %s' % m.group(2))
                    elif not m.group(1):
                        raise error(1051, 'Unknown table')
        s.version += 1

    def dml(self, word, sql, values):
        write = word not in ('SELECT', 'SHOW')
        sql = re.sub(r' (FOR UPDATE|LOCK IN SHARE MODE)$', '', sql, flags=re.I)
        m = NOT_MYSQL.search(sql)
        if m:
            raise error(1064, 'You have an error in your SQL syntax near %r' % m.group(0))
        sql = re.sub(r'^INSERT IGNORE\b', 'INSERT OR IGNORE', sql, flags=re.I)
        sql = sql.replace('||', ' OR ')
        if re.search(r'\bON DUPLICATE KEY UPDATE\b', sql, re.I):
            head, tail = re.split(r'\bON DUPLICATE KEY UPDATE\b', sql, maxsplit=1, flags=re.I)
            sql = '%s ON CONFLICT DO UPDATE SET %s' % (head, re.sub(r'\bVALUES\s*\(\s*(\w+)\s*\)', r'excluded.\1', tail, flags=re.I))
        if write:
            m = re.search(r'(?:UPDATE|INTO|FROM)\s+(\w+)', sql, re.I)
            t = self.server.tables.get(m.group(1)) if m else None
            if t:
                for v in values:
                    if t['charset'] == 'utf8' and any(ord(c) > 0xffff for c in v) and word != 'DELETE':
                        raise error(1366, "Incorrect string value for column 'id'")
                    if len(v) > t['length'] and word in ('INSERT', 'REPLACE'):
                        raise error(1406, "Data too long for column 'id'")
        db = self.view(write)
        try:
            changed = None
            if word == 'UPDATE' and not self.flags & CLIENT.FOUND_ROWS:
                changed = self.would_change(db, sql, values)
            cur = db.execute(sql, values)
            if cur.description is not None:
                self._result = Result(cur.fetchall(), [d[0] for d in cur.description])
                self._affected = len(self._result.rows)
            else:
                self._affected = cur.rowcount if changed is None else changed
                self._insert_id = 0
        except sqlite3.IntegrityError as e:
            if 'CHECK' in str(e):
                raise error(1264, 'Out of range value for column')
            raise error(1062, 'Duplicate entry %r for key (%s)' % ([v[:40] for v in values], e))
        except sqlite3.OperationalError as e:
            msg = str(e)
            if 'no such table' in msg:
                raise error(1146, "Table doesn't exist")
            if 'no such column' in msg or 'has no column' in msg:
                raise error(1054, 'Unknown column: ' + msg)
            raise error(1064, 'You have an error in your SQL syntax: ' + msg)
        except (OverflowError, sqlite3.DataError) as e:
            raise error(1264, 'Out of range value: %s' % e)

    def would_change(self, db, sql, values):
        """Without CLIENT_FOUND_ROWS the server counts the rows that an update really changes."""
        m = re.match(r'UPDATE (\w+) SET (.*?) WHERE (.*)$', sql, re.I | re.S)
        if not m:
            return None
        cond = ' OR '.join('NOT ((%s) IS (%s))' % tuple(a.split('=', 1)) for a in m.group(2).split(','))
        nset = m.group(2).count('?')
        return db.execute('SELECT COUNT(*) FROM %s WHERE (%s) AND (%s)' % (m.group(1), cond, m.group(3)), values[:nset] + values[nset:]).fetchone()[0]
