"""A simulated disk under the real SQLite.

Registers a VFS, written with ctypes callbacks, as the default VFS of the very libsqlite3 that
Python's sqlite3 module uses.  Real SQLite code then runs on in-memory files that the simulator owns:
every read, write, sync, truncate, delete, lock, sleep, random byte and clock value comes from here.

Disks are named by the first path component ("/main/gb.db" lies on disk "main"); relative paths lie
on the disk World.cwd.  A disk keeps, per file, the volatile contents (what the OS would return), the
durable contents (as of the last successful sync) and the list of writes since then.  A crash
invalidates all open handles and rebuilds the files from the durable contents plus, according to the
crash mode, all (process kill), some sectors of (power loss) or none of the pending writes.
Creation becomes durable with the first sync of the file; deletion is durable when the call returns
(SQLite's default FULL mode relies on that as well).
"""
import ctypes as C
import zlib
import sqlite3  # loads libsqlite3.so.0

OK, ERROR, BUSY, IOERR, FULL, CANTOPEN, NOTFOUND = 0, 1, 5, 10, 13, 14, 12
IOERR_READ = IOERR | (1 << 8)
IOERR_SHORT_READ = IOERR | (2 << 8)
IOERR_WRITE = IOERR | (3 << 8)
IOERR_FSYNC = IOERR | (4 << 8)
IOERR_TRUNCATE = IOERR | (6 << 8)
IOERR_FSTAT = IOERR | (7 << 8)
IOERR_DELETE = IOERR | (10 << 8)
IOERR_DELETE_NOENT = IOERR | (23 << 8)
IOERR_ACCESS = IOERR | (13 << 8)
IOERR_LOCK = IOERR | (15 << 8)

NONE, SHARED, RESERVED, PENDING, EXCLUSIVE = 0, 1, 2, 3, 4

OPEN_READONLY = 1
OPEN_CREATE = 4
OPEN_DELETEONCLOSE = 8
OPEN_EXCLUSIVE = 0x10

SECTOR = 512

_err_of = {'open': CANTOPEN, 'read': IOERR_READ, 'write': IOERR_WRITE, 'sync': IOERR_FSYNC,
           'truncate': IOERR_TRUNCATE, 'delete': IOERR_DELETE, 'size': IOERR_FSTAT, 'lock': IOERR_LOCK}
MUTATING = ('open', 'write', 'sync', 'truncate', 'delete')


class File(object):
    __slots__ = ('path', 'number', 'data', 'durable', 'exists_durable', 'pending', 'shared', 'reserved', 'pend', 'excl', 'shm')

    def __init__(self, path):
        self.path = path
        self.number = zlib.crc32(path.encode('utf-8', 'surrogatepass'))
        self.data = bytearray()
        self.durable = b''
        self.exists_durable = False
        self.pending = []       # ('w', off, bytes) or ('t', size)
        self.shared = set()     # handle ids
        self.reserved = None
        self.pend = None
        self.excl = None
        self.shm = None         # shared memory of the connections (write-ahead logging), lost in a crash

    def free_locks(self, hid):
        if self.shm is not None:
            self.shm.unmap(hid)
        self.shared.discard(hid)
        if self.reserved == hid:
            self.reserved = None
        if self.pend == hid:
            self.pend = None
        if self.excl == hid:
            self.excl = None


class Shm(object):
    """The shared memory that connections to a database in WAL mode use, with its eight locks."""
    __slots__ = ('regions', 'users', 'shared', 'excl')

    def __init__(self):
        self.regions = []
        self.users = set()
        self.shared = [set() for _ in range(8)]
        self.excl = [None] * 8

    def unmap(self, hid):
        for i in range(8):
            self.shared[i].discard(hid)
            if self.excl[i] == hid:
                self.excl[i] = None
        self.users.discard(hid)


class Disk(object):
    """One simulated disk, with an optional fault plan.

    fault: None or dict(kind=..., call=<class or 'any'>, nth=<int>, count=<int or None>, code=<sqlite code>)
      kind 'error': the nth.. nth+count-1 matching calls return the error code of their class
                    (code overrides); count None means until the fault is lifted.
      kind 'short': the write stores only a prefix of the data, then fails with FULL.
      kind 'crash': at the nth matching call the disk dies; torn: the call itself takes partial effect
    """

    def __init__(self, name):
        self.name = name
        self.files = {}
        self.dirs = set()
        self.epoch = 0
        self.dead = False
        self.calls = {}          # class -> count since reset_calls
        self.ncalls = 0
        self.nmut = 0
        self.fault = None
        self.fired = {}          # kind/class -> count
        self.matched = 0
        self.busy_until = None   # phantom external process holds an exclusive lock until then (simulated time)
        self.busy_level = EXCLUSIVE
        self.trace = None
        self.stats = {'calls': 0}
        self.faulted = False     # some fault fired since last clear
        self.budget = None       # remaining storage calls before the run counts as stuck

    # -- bookkeeping -----------------------------------------------------------------------------
    def reset_calls(self):
        self.calls = {}
        self.ncalls = 0
        self.nmut = 0

    def set_fault(self, fault):
        self.fault = dict(fault) if fault else None
        self.matched = 0
        self.faulted = False

    def note(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.faulted = True

    def call(self, cls, path, off=0, n=0):
        """Counts a storage call.  Returns None or the error code to return ('short' for a short write)."""
        if self.dead:
            return _err_of.get(cls, IOERR)
        self.calls[cls] = self.calls.get(cls, 0) + 1
        self.ncalls += 1
        self.stats['calls'] += 1
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                self.note('budget')
                self.dead = True
                return _err_of.get(cls, IOERR)
        mut = cls in MUTATING
        if mut:
            self.nmut += 1
        if self.trace is not None:
            self.trace.append((cls, path, off, n))
        f = self.fault
        if f is None:
            return None
        want = f['call']
        if not (want == cls or (want == 'any' and cls != 'lock' and cls != 'size') or (want == 'mut' and mut)):
            return None
        i = self.matched
        self.matched += 1
        if i < f['nth']:
            return None
        if f['kind'] == 'crash':
            if i == f['nth']:
                self.note('crash@' + cls)
                if f.get('partial') and cls == 'write':
                    return 'partial'
                self.dead = True
                return _err_of.get(cls, IOERR)
            return None
        cnt = f.get('count', 1)
        if cnt is not None and i >= f['nth'] + cnt:
            return None
        if f['kind'] == 'short':
            if cls != 'write':
                return None
            self.note('short_write')
            return 'short'
        code = f.get('code') or _err_of[cls]
        self.note('%s@%s' % ({FULL: 'full', BUSY: 'busy'}.get(code, 'ioerr'), cls))
        return code

    # -- crash ---------------------------------------------------------------------------------------
    def crash(self, mode, rng):
        """Simulates process kill ('kill') or power loss ('power', 'power_none') and reboots the disk."""
        self.epoch += 1
        self.dead = False
        self.fault = None
        self.busy_until = None
        survivors = {}
        for path in sorted(self.files):
            f = self.files[path]
            if mode == 'kill':
                data = bytearray(f.data)
            else:
                if not f.exists_durable and (mode == 'power_none' or rng.random() < 0.5):
                    self.fired['lost_file'] = self.fired.get('lost_file', 0) + 1
                    continue
                data = bytearray(f.durable)
                if mode == 'power':
                    p = rng.choice((0.1, 0.5, 0.9))
                    for op in f.pending:
                        if op[0] == 't':
                            if rng.random() < p:
                                if op[1] < len(data):
                                    del data[op[1]:]
                                else:
                                    data.extend(bytes(op[1] - len(data)))
                            else:
                                self.fired['lost_truncate'] = self.fired.get('lost_truncate', 0) + 1
                            continue
                        off, buf = op[1], op[2]
                        pos = 0
                        while pos < len(buf):
                            step = min(SECTOR - (off + pos) % SECTOR, len(buf) - pos)
                            if rng.random() < p:
                                a = off + pos
                                if a > len(data):
                                    data.extend(bytes(a - len(data)))
                                data[a:a + step] = buf[pos:pos + step]
                            else:
                                self.fired['lost_sector'] = self.fired.get('lost_sector', 0) + 1
                            pos += step
                elif f.pending:
                    self.fired['lost_all_unsynced'] = self.fired.get('lost_all_unsynced', 0) + 1
            g = File(path)
            g.data = data
            g.durable = bytes(data)
            g.exists_durable = True
            survivors[path] = g
        self.files = survivors

    def snapshot(self):
        return {p: bytes(f.data) for p, f in self.files.items()}

    def load(self, snap):
        self.epoch += 1
        self.files = {}
        for p, data in snap.items():
            f = File(p)
            f.data = bytearray(data)
            f.durable = data
            f.exists_durable = True
            self.files[p] = f

    def locked_by_any(self):
        return sorted(p for p, f in self.files.items() if f.shared or f.reserved or f.pend or f.excl)


class Handle(object):
    __slots__ = ('id', 'disk', 'file', 'level', 'epoch', 'delete_on_close', 'isdb', 'shm')

    def __init__(self, hid, disk, f, delete_on_close, isdb):
        self.id = hid
        self.disk = disk
        self.file = f
        self.level = NONE
        self.epoch = disk.epoch
        self.delete_on_close = delete_on_close
        self.isdb = isdb
        self.shm = None

    def stale(self):
        return self.disk.dead or self.epoch != self.disk.epoch


class World(object):
    """The simulated machine(s): disks, clock, randomness, scheduling callback."""

    def __init__(self):
        self.disks = {}
        self.cwd = 'main'
        self.names = set()       # relative names of simulated files, for what looks at them without SQLite
        self.now = 0.0
        self.rng = None
        self.handles = {}
        self.next_handle = 1
        self.sched = None        # object with at_lock(handle, level) and sleep(seconds)
        self.slept = 0.0
        self.errors = []         # exceptions inside callbacks (harness errors)

    def reset(self, rng):
        self.disks = {}
        self.cwd = 'main'
        self.names = set()
        self.now = 1.5e9
        self.rng = rng
        self.handles = {}
        self.next_handle = 1
        self.sched = None
        self.slept = 0.0
        self.errors = []

    def disk(self, name):
        d = self.disks.get(name)
        if d is None:
            d = self.disks[name] = Disk(name)
        return d

    def split(self, path):
        p = path.lstrip('/')
        name, _, rest = p.partition('/')
        return self.disk(name)

    def sleep(self, seconds):
        self.slept += seconds
        if self.sched is not None and self.sched.sleep(seconds):
            return
        self.now += seconds


WORLD = World()


class IoMethods(C.Structure):
    pass


class SqliteFile(C.Structure):
    _fields_ = [('pMethods', C.POINTER(IoMethods)), ('hid', C.c_longlong)]


class Vfs(C.Structure):
    pass


FP = C.POINTER(SqliteFile)
VP = C.POINTER(Vfs)
I = C.c_int
L = C.c_longlong

T_close = C.CFUNCTYPE(I, FP)
T_read = C.CFUNCTYPE(I, FP, C.c_void_p, I, L)
T_write = C.CFUNCTYPE(I, FP, C.c_void_p, I, L)
T_trunc = C.CFUNCTYPE(I, FP, L)
T_sync = C.CFUNCTYPE(I, FP, I)
T_size = C.CFUNCTYPE(I, FP, C.POINTER(L))
T_lock = C.CFUNCTYPE(I, FP, I)
T_check = C.CFUNCTYPE(I, FP, C.POINTER(I))
T_ctl = C.CFUNCTYPE(I, FP, I, C.c_void_p)
T_int = C.CFUNCTYPE(I, FP)
T_shmmap = C.CFUNCTYPE(I, FP, I, I, I, C.POINTER(C.c_void_p))
T_shmlock = C.CFUNCTYPE(I, FP, I, I, I)
T_check0 = C.CFUNCTYPE(I, FP, I)
T_void = C.CFUNCTYPE(None, FP)

IoMethods._fields_ = [('iVersion', I), ('xClose', T_close), ('xRead', T_read), ('xWrite', T_write),
                      ('xTruncate', T_trunc), ('xSync', T_sync), ('xFileSize', T_size), ('xLock', T_lock),
                      ('xUnlock', T_lock), ('xCheckReservedLock', T_check), ('xFileControl', T_ctl),
                      ('xSectorSize', T_int), ('xDeviceCharacteristics', T_int), ('xShmMap', T_shmmap),
                      ('xShmLock', T_shmlock), ('xShmBarrier', T_void), ('xShmUnmap', T_check0)]

T_open = C.CFUNCTYPE(I, VP, C.c_char_p, FP, I, C.POINTER(I))
T_delete = C.CFUNCTYPE(I, VP, C.c_char_p, I)
T_access = C.CFUNCTYPE(I, VP, C.c_char_p, I, C.POINTER(I))
T_full = C.CFUNCTYPE(I, VP, C.c_char_p, I, C.c_void_p)
T_rand = C.CFUNCTYPE(I, VP, I, C.c_void_p)
T_sleep = C.CFUNCTYPE(I, VP, I)
T_time = C.CFUNCTYPE(I, VP, C.POINTER(C.c_double))
T_lasterr = C.CFUNCTYPE(I, VP, I, C.c_void_p)
T_time64 = C.CFUNCTYPE(I, VP, C.POINTER(L))

Vfs._fields_ = [('iVersion', I), ('szOsFile', I), ('mxPathname', I), ('pNext', C.c_void_p), ('zName', C.c_char_p),
                ('pAppData', C.c_void_p), ('xOpen', T_open), ('xDelete', T_delete), ('xAccess', T_access),
                ('xFullPathname', T_full), ('xDlOpen', C.c_void_p), ('xDlError', C.c_void_p), ('xDlSym', C.c_void_p),
                ('xDlClose', C.c_void_p), ('xRandomness', T_rand), ('xSleep', T_sleep), ('xCurrentTime', T_time),
                ('xGetLastError', T_lasterr), ('xCurrentTimeInt64', T_time64)]


def _guard(default):
    def deco(fn):
        def wrapped(*args):
            try:
                return fn(*args)
            except BaseException as e:  # must not escape into C
                import traceback
                WORLD.errors.append('%s: %s' % (fn.__name__, traceback.format_exc()))
                return default
        wrapped.__name__ = fn.__name__
        return wrapped
    return deco


def _h(pf):
    return WORLD.handles.get(pf.contents.hid)


@_guard(OK)
def x_close(pf):
    h = WORLD.handles.pop(pf.contents.hid, None)
    if h is None:
        return OK
    h.file.free_locks(h.id)
    if h.delete_on_close and not h.stale():
        h.disk.files.pop(h.file.path, None)
    return OK


@_guard(IOERR)
def x_read(pf, buf, n, off):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_READ
    rc = h.disk.call('read', h.file.path, off, n)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_READ
    chunk = bytes(h.file.data[off:off + n])
    C.memmove(buf, chunk, len(chunk))
    if len(chunk) < n:
        C.memset(buf + len(chunk), 0, n - len(chunk))
        return IOERR_SHORT_READ
    return OK


def _put(f, off, data):
    if off > len(f.data):
        f.data.extend(bytes(off - len(f.data)))
    f.data[off:off + len(data)] = data
    f.pending.append(('w', off, data))


@_guard(IOERR)
def x_write(pf, buf, n, off):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_WRITE
    data = C.string_at(buf, n)
    rc = h.disk.call('write', h.file.path, off, n)
    if rc == 'partial':
        # the machine dies while this write is in flight: a prefix of it reaches the file
        cut = WORLD.rng.randrange(n + 1)
        _put(h.file, off, data[:cut])
        h.disk.dead = True
        return IOERR_WRITE
    if rc == 'short':
        cut = WORLD.rng.randrange(n)
        _put(h.file, off, data[:cut])
        return FULL
    if rc is not None:
        return rc
    _put(h.file, off, data)
    return OK


@_guard(IOERR)
def x_truncate(pf, size):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_TRUNCATE
    rc = h.disk.call('truncate', h.file.path, size)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_TRUNCATE
    f = h.file
    if size < len(f.data):
        del f.data[size:]
    else:
        f.data.extend(bytes(size - len(f.data)))
    f.pending.append(('t', size))
    return OK


@_guard(IOERR)
def x_sync(pf, flags):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_FSYNC
    rc = h.disk.call('sync', h.file.path)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_FSYNC
    f = h.file
    f.durable = bytes(f.data)
    f.pending = []
    f.exists_durable = True
    return OK


@_guard(IOERR)
def x_size(pf, out):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_FSTAT
    rc = h.disk.call('size', h.file.path)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_FSTAT
    out[0] = len(h.file.data)
    return OK


@_guard(IOERR)
def x_lock(pf, level):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR_LOCK
    if h.level >= level:
        return OK
    if WORLD.sched is not None:
        WORLD.sched.at_lock(h, level)
        if h.stale():
            return IOERR_LOCK
    d = h.disk
    rc = d.call('lock', h.file.path, level)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_LOCK
    f, me = h.file, h.id
    if d.busy_until is not None:
        if WORLD.now >= d.busy_until:
            d.busy_until = None
        elif level >= RESERVED or d.busy_level == EXCLUSIVE:
            if not (d.busy_level == SHARED and level < EXCLUSIVE):
                d.note('extlock')
                d.faulted = True
                return BUSY
    if level == SHARED:
        if (f.pend is not None and f.pend != me) or (f.excl is not None and f.excl != me):
            return BUSY
        f.shared.add(me)
    elif level == RESERVED:
        if (f.reserved is not None and f.reserved != me) or (f.pend is not None and f.pend != me) \
                or (f.excl is not None and f.excl != me):
            return BUSY
        f.reserved = me
    else:
        if (f.reserved is not None and f.reserved != me) or (f.pend is not None and f.pend != me) \
                or (f.excl is not None and f.excl != me):
            return BUSY
        f.pend = me
        if level == EXCLUSIVE:
            if f.shared - {me}:
                h.level = PENDING
                return BUSY
            f.excl = me
    h.level = level
    return OK


@_guard(IOERR)
def x_unlock(pf, level):
    h = _h(pf)
    if h is None:
        return OK
    f, me = h.file, h.id
    if level <= SHARED:
        if f.reserved == me:
            f.reserved = None
        if f.pend == me:
            f.pend = None
        if f.excl == me:
            f.excl = None
    if level == NONE:
        f.shared.discard(me)
    h.level = min(h.level, level)
    return OK


@_guard(IOERR)
def x_check_reserved(pf, out):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR
    f = h.file
    out[0] = 1 if (f.reserved is not None or f.pend is not None or f.excl is not None) else 0
    d = h.disk
    if d.busy_until is not None and WORLD.now < d.busy_until and d.busy_level >= RESERVED:
        out[0] = 1
    return OK


@_guard(NOTFOUND)
def x_ctl(pf, op, arg):
    return NOTFOUND


@_guard(SECTOR)
def x_sector(pf):
    return SECTOR


@_guard(0)
def x_dev(pf):
    return 0x1000  # powersafe overwrite, as SQLite's unix VFS assumes


@_guard(IOERR)
def x_shm_map(pf, page, size, extend, pp):
    h = _h(pf)
    if h is None or h.stale():
        return IOERR
    f = h.file
    if h.shm is None:
        if f.shm is None or not f.shm.users:
            f.shm = Shm()
        h.shm = f.shm
        h.shm.users.add(h.id)
    if page >= len(h.shm.regions):
        if not extend:
            pp[0] = None
            return OK
        rc = h.disk.call('lock', f.path)
        if rc is not None:
            return rc if isinstance(rc, int) else IOERR
        while page >= len(h.shm.regions):
            h.shm.regions.append(C.create_string_buffer(size))
    pp[0] = C.addressof(h.shm.regions[page])
    return OK


@_guard(IOERR_LOCK)
def x_shm_lock(pf, off, n, flags):
    h = _h(pf)
    if h is None or h.stale() or h.shm is None:
        return IOERR_LOCK
    s, me = h.shm, h.id
    slots = range(off, off + n)
    if flags & 1:
        for i in slots:
            s.shared[i].discard(me)
            if s.excl[i] == me:
                s.excl[i] = None
        return OK
    write = bool(flags & 8)
    if WORLD.sched is not None:
        WORLD.sched.at_lock(h, RESERVED if write else SHARED)
        if h.stale():
            return IOERR_LOCK
    d = h.disk
    rc = d.call('lock', h.file.path, off)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_LOCK
    if d.busy_until is not None and write and off == 0:
        if WORLD.now >= d.busy_until:
            d.busy_until = None
        elif d.busy_level >= RESERVED:
            d.note('extlock')
            return BUSY
    for i in slots:
        if s.excl[i] is not None and s.excl[i] != me or write and s.shared[i] - {me}:
            return BUSY
    for i in slots:
        if write:
            s.excl[i] = me
        else:
            s.shared[i].add(me)
    return OK


@_guard(None)
def x_shm_barrier(pf):
    return None


@_guard(OK)
def x_shm_unmap(pf, delete):
    h = _h(pf)
    if h is not None and h.shm is not None:
        h.shm.unmap(h.id)
    return OK


_IO = IoMethods(2, T_close(x_close), T_read(x_read), T_write(x_write), T_trunc(x_truncate), T_sync(x_sync),
                T_size(x_size), T_lock(x_lock), T_lock(x_unlock), T_check(x_check_reserved), T_ctl(x_ctl),
                T_int(x_sector), T_int(x_dev), T_shmmap(x_shm_map), T_shmlock(x_shm_lock), T_void(x_shm_barrier),
                T_check0(x_shm_unmap))
_IOP = C.pointer(_IO)


@_guard(CANTOPEN)
def x_open(pv, zname, pf, flags, pout):
    f = C.cast(pf, FP).contents
    f.pMethods = None
    tmp = zname is None
    path = '/%s/tmp-%d' % (WORLD.cwd, WORLD.next_handle) if tmp else zname.decode('utf-8')
    d = WORLD.split(path)
    if d.dead:
        return CANTOPEN
    fl = d.files.get(path)
    rc = None
    if fl is None:
        if not (flags & OPEN_CREATE):
            return CANTOPEN
        rc = d.call('open', path)
        if rc is None:
            fl = d.files[path] = File(path)
    else:
        if flags & OPEN_EXCLUSIVE and flags & OPEN_CREATE:
            return CANTOPEN
        rc = d.call('open', path)
    if rc is not None:
        return rc if isinstance(rc, int) else CANTOPEN
    hid = WORLD.next_handle
    WORLD.next_handle += 1
    WORLD.handles[hid] = Handle(hid, d, fl, bool(flags & OPEN_DELETEONCLOSE) or tmp, bool(flags & 0x100))
    f.hid = hid
    f.pMethods = _IOP
    if pout:
        pout[0] = flags
    return OK


@_guard(IOERR)
def x_delete(pv, zname, syncdir):
    path = zname.decode('utf-8')
    d = WORLD.split(path)
    if d.dead:
        return IOERR_DELETE
    rc = d.call('delete', path)
    if rc is not None:
        return rc if isinstance(rc, int) else IOERR_DELETE
    if path not in d.files:
        return IOERR_DELETE_NOENT
    del d.files[path]
    return OK


@_guard(IOERR)
def x_access(pv, zname, flags, pout):
    path = zname.decode('utf-8')
    d = WORLD.split(path)
    if d.dead:
        return IOERR_ACCESS
    f = d.files.get(path)
    # SQLite's unix VFS treats an existing zero-length file as absent here
    pout[0] = 1 if (f is not None and (flags != 0 or len(f.data) > 0)) else 0
    return OK


@_guard(CANTOPEN)
def x_full(pv, zname, nout, zout):
    name = zname.decode('utf-8')
    if not name.startswith('/'):
        name = '/%s/%s' % (WORLD.cwd, name)
    parts = []
    for c in name.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if parts:
                parts.pop()
            continue
        parts.append(c)
    raw = ('/' + '/'.join(parts)).encode('utf-8') + b'\0'
    if len(raw) > nout:
        return CANTOPEN
    C.memmove(zout, raw, len(raw))
    return OK


@_guard(0)
def x_rand(pv, n, out):
    C.memmove(out, WORLD.rng.randbytes(n) if WORLD.rng is not None else bytes(n), n)
    return n


@_guard(0)
def x_sleep(pv, us):
    WORLD.sleep(us / 1e6)
    return us


@_guard(OK)
def x_time(pv, out):
    out[0] = 2440587.5 + WORLD.now / 86400.0
    return OK


@_guard(OK)
def x_time64(pv, out):
    out[0] = int((2440587.5 * 86400 + WORLD.now) * 1000)
    return OK


@_guard(0)
def x_lasterr(pv, n, out):
    return 0


_VFS = Vfs(2, C.sizeof(SqliteFile), 512, None, b'sim', None, T_open(x_open), T_delete(x_delete), T_access(x_access),
           T_full(x_full), None, None, None, None, T_rand(x_rand), T_sleep(x_sleep), T_time(x_time),
           T_lasterr(x_lasterr), T_time64(x_time64))

_installed = False


def install():
    """Makes the simulated VFS the default one; fails if Python's sqlite3 does not end up on it."""
    global _installed
    if _installed:
        return
    lib = C.CDLL('libsqlite3.so.0')
    lib.sqlite3_vfs_register.argtypes = [VP, I]
    rc = lib.sqlite3_vfs_register(C.byref(_VFS), 1)
    if rc != OK:
        raise RuntimeError('cannot register the simulated VFS: %d' % rc)
    import random
    WORLD.reset(random.Random(0))
    con = sqlite3.connect('/selftest/x.db')
    con.execute('create table t(x)')
    con.commit()
    con.close()
    if '/selftest/x.db' not in WORLD.disk('selftest').files:
        raise RuntimeError('sqlite3 does not use the simulated VFS')
    WORLD.reset(random.Random(0))
    _installed = True
