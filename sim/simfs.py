"""The simulated files as Python's file functions see them.

SQLite reaches them through the simulated VFS; code that looks at the file itself (does it exist, how long is it, what does it
start with) or changes it (copies, deletes, renames) gets here. All other paths go to the real functions."""
import builtins
import errno
import io
import os
import posixpath
import stat as st
import zlib

from sim import vfs

WORLD = vfs.WORLD
REAL = {}


def sim_path(path):
    """The absolute simulated path, or None."""
    if type(path) is int or path is None:
        return None
    try:
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
    except TypeError:
        return None
    if not p.startswith('/'):
        n = posixpath.normpath(p)
        if not any(n == x or n.startswith(x + '-') for x in WORLD.names):
            return None
        p = '/%s/%s' % (WORLD.cwd, n)
    else:
        p = posixpath.normpath(p)
    if p == '/main' or p.startswith('/main/'):
        return p
    return None


def oops(code, path):
    return OSError(code, os.strerror(code), path)


def find(p):
    """File, 'dir', or an error."""
    d = WORLD.split(p)
    if d.dead:
        raise oops(errno.EIO, p)
    if p in d.files:
        return d, d.files[p]
    if p == '/main' or p in d.dirs or any(x.startswith(p + '/') for x in d.files):
        return d, 'dir'
    if len(p.rpartition('/')[2].encode('utf-8', 'surrogatepass')) > 255:
        raise oops(errno.ENAMETOOLONG, p)
    raise oops(errno.ENOENT, p)


def sim_stat(p):
    d, f = find(p)
    now = WORLD.now
    if f == 'dir':
        return os.stat_result((st.S_IFDIR | 0o755, zlib.crc32(p.encode('utf-8', 'surrogatepass')), 9, 2, 0, 0, 4096, int(now), int(now), int(now)))
    return os.stat_result((st.S_IFREG | 0o644, f.number, 9, 1, 0, 0, len(f.data), int(now), int(now), int(now)))


def through(name, fake):
    """Replaces os.<name>: simulated paths go to the fake."""
    real = REAL[name] = getattr(os, name)

    def f(path, *args, **kwargs):
        p = sim_path(path)
        if p is None:
            return real(path, *args, **kwargs)
        return fake(p, *args, **kwargs)
    f.__name__ = name
    setattr(os, name, f)


def fake_stat(p, *args, **kwargs):
    return sim_stat(p)


def fake_access(p, mode=0, **kwargs):
    try:
        find(p)
        return True
    except OSError:
        return False


def fake_unlink(p, **kwargs):
    d, f = find(p)
    if f == 'dir':
        raise oops(errno.EISDIR, p)
    del d.files[p]


def fake_rename(p, to, **kwargs):
    t = sim_path(to)
    if t is None:
        raise oops(errno.EXDEV, p)
    d, f = find(p)
    if f == 'dir':
        raise oops(errno.EACCES, p)
    g = vfs.File(t)
    g.data = f.data
    g.durable, g.exists_durable, g.pending = bytes(f.data), True, []
    del d.files[p]
    d.files[t] = g


def fake_mkdir(p, *args, **kwargs):
    try:
        find(p)
    except OSError as e:
        if e.errno != errno.ENOENT:
            raise
        WORLD.split(p).dirs.add(p)
        return
    raise oops(errno.EEXIST, p)


def fake_rmdir(p, **kwargs):
    WORLD.split(p).dirs.discard(p)


def fake_listdir(p='.', *args):
    d, f = find(p)
    if f != 'dir':
        raise oops(errno.ENOTDIR, p)
    return sorted(set(x[len(p) + 1:].partition('/')[0] for x in list(d.files) + list(d.dirs) if x.startswith(p + '/')))


def fake_nothing(p, *args, **kwargs):
    find(p)


def fake_readlink(p, *args, **kwargs):
    find(p)
    raise oops(errno.EINVAL, p)


def create(p, truncate, exclusive=False):
    d = WORLD.split(p)
    if d.dead:
        raise oops(errno.EIO, p)
    f = d.files.get(p)
    if f is not None and exclusive:
        raise oops(errno.EEXIST, p)
    if f is None:
        if len(p.rpartition('/')[2].encode('utf-8', 'surrogatepass')) > 255:
            raise oops(errno.ENAMETOOLONG, p)
        f = d.files[p] = vfs.File(p)
    elif truncate and f.data:
        del f.data[:]
        f.pending.append(('t', 0))
    return f


class SimRaw(io.RawIOBase):
    """A simulated file opened by Python."""

    def __init__(self, path, mode):
        super().__init__()
        self.name = path
        self.mode = mode
        p = sim_path(path)
        kind = [c for c in mode if c in 'rwax'][0]
        self.reads = kind == 'r' or '+' in mode
        self.writes = kind != 'r' or '+' in mode
        self.append = kind == 'a'
        if kind == 'r':
            d, self.file = find(p)
            if self.file == 'dir':
                raise oops(errno.EISDIR, p)
        else:
            self.file = create(p, kind == 'w', kind == 'x')
        self.disk = WORLD.split(p)
        self.pos = 0

    def readable(self):
        return self.reads

    def writable(self):
        return self.writes

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, len(self.file.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        data = bytes(self.file.data[self.pos:self.pos + len(b)])
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        if self.disk.dead:
            raise oops(errno.EIO, self.name)
        data = bytes(b)
        f = self.file
        if self.append:
            self.pos = len(f.data)
        if len(f.data) < self.pos:
            f.data.extend(bytes(self.pos - len(f.data)))
        f.data[self.pos:self.pos + len(data)] = data
        f.pending.append(('w', self.pos, data))
        self.pos += len(data)
        return len(data)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        f = self.file
        if size < len(f.data):
            del f.data[size:]
        else:
            f.data.extend(bytes(size - len(f.data)))
        f.pending.append(('t', size))
        return size


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if sim_path(file) is None:
        return REAL['io.open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(file, mode)
    buf = io.BufferedRandom(raw) if raw.reads and raw.writes else io.BufferedReader(raw) if raw.reads else io.BufferedWriter(raw)
    if 'b' in mode:
        return raw if buffering == 0 else buf
    return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)


def fake_osopen(p, flags, mode=0o777, **kwargs):
    if flags & os.O_CREAT:
        create(p, flags & os.O_TRUNC, flags & os.O_EXCL)
    else:
        find(p)
    return REAL['open'](os.devnull, os.O_RDWR)


def install():
    for name, fake in (('stat', fake_stat), ('lstat', fake_stat), ('access', fake_access), ('unlink', fake_unlink), ('remove', fake_unlink), ('rename', fake_rename), ('replace', fake_rename),
                       ('mkdir', fake_mkdir), ('rmdir', fake_rmdir), ('listdir', fake_listdir), ('chmod', fake_nothing), ('utime', fake_nothing), ('readlink', fake_readlink), ('open', fake_osopen)):
        through(name, fake)
    REAL['io.open'] = io.open
    io.open = builtins.open = sim_open
    os.getcwd = lambda: '/' + WORLD.cwd
    os.getcwdb = lambda: os.fsencode('/' + WORLD.cwd)
