"""C18: the Wikipedia dump filter, on simulated streams: chunked, failing at any byte."""
import builtins
import errno
import io
import os
import runpy
import sys
import zlib

from sim import core, seams
from sim.core import Violation

SCRIPT = 'python/filter_wikidump.py'
INPUT = '/sim/dump.xml'
MAIN = ['Berlin', 'A', '', 'AccessibleComputing', 'caf\u00e9', '\u65e5\u672c', 'x/y', 'a &amp; b', '2016', 'Talk', 'fullwidth\uff1acolon', 'semi;colon', 'title', 'page', 'C++', '  spaced ', '&lt;page&gt;', 'ratio\u2236',
        'ls\u2028x', 'nel\x85y', 'long ' * 60, 'x' * 1000, 'caf\u00e9' * 200]
OTHER = ['Talk:Berlin', 'User:A', ':', 'Wikipedia:X', 'a:b:c', 'x: y', 'File:caf\u00e9.png', 'end:', ':start', 'Star Trek: First', 'caf\u00e9:\u65e5\u672c', 'MediaWiki:Sidebar', 'lower:case', '  : ', 'Talk:\u2028x', 'vt\x0b:x', 'File:' + 'long ' * 60, 'x' * 255 + ':', 'x' * 2000 + ':x']
OUT = ['<mediawiki xml:lang="en">', '  <siteinfo>', '    <sitename>Wikipedia</sitename>', '      <namespace key="1" case="first-letter">Talk</namespace>', '  </siteinfo>', '</mediawiki>', '',
       '<!-- a: comment -->', ' ', '    <dbname>enwiki</dbname>', '\ttab']
HEAD = ['    <ns>0</ns>', '    <ns>1</ns>', '    <id>10</id>', '', '    <!-- a:b -->', '    <redirect target="Talk:X" />']
BODY = ['    <id>12</id>', '    <redirect title="Talk:X" />', '    <revision>', '      <timestamp>2001-01-21T02:12:21Z</timestamp>', '      <text xml:space="preserve">\'\'\'A\'\'\' is: b', 'plain text', '',
        '* [[Talk:X|y]]', '&lt;page&gt;', '&lt;/page&gt;', '&lt;title&gt;Talk:x&lt;/title&gt;', '      </text>', '    </revision>', 'caf\u00e9 \u65e5\u672c \U0001d4b3', 'nel \x85 ls \u2028 ps \u2029 vt \x0b ff \x0c fs \x1c',
        'trailing  ', '\ufeffbom', '    <sha1>abc:def</sha1>', 'a' * 300, 'page', '/page', 'title:', '<pages>', '< page >', '<title2>x:y</title2>']


def gen(rng, prop, tier, i):
    pages = []
    big = rng.random() < 0.12
    for _ in range(rng.choice((0, 1, 2, 3, 5, 9))):
        if rng.random() < 0.3:
            pages.append(['out', [rng.choice(OUT) for _ in range(rng.choice((1, 1, 2, 4)))]])
        else:
            head = [rng.choice(HEAD) for _ in range(rng.choice((0, 0, 0, 1, 2, 4)))]
            body = [rng.choice(BODY) for _ in range(rng.choice((0, 1, 2, 3, 6)))]
            if big and rng.random() < 0.5:
                body.append(['long', rng.choice((4000, 8191, 8192, 8193, 20000, 70000)), rng.choice('az\u00e9\u65e5')])
            if rng.random() < 0.04:
                head.append(['long', rng.choice((8192, 20000, 70000)), 'h'])
                head.append(rng.choice(HEAD))
            elif big and rng.random() < 0.05:
                head += [rng.choice(HEAD)] * rng.choice((100, 1100))
            if big and rng.random() < 0.05:
                body += [rng.choice(BODY[:11]) for _ in range(rng.choice((100, 1100, 5000)))]
            pages.append(['page', rng.choice(('  ', '', '\t')), head, rng.choice(MAIN if rng.random() < 0.5 else OTHER), body] + ([[rng.choice(('', ' ', '\t ')) for _ in range(3)]] if rng.random() < 0.1 else []))
    if pages and rng.random() < 0.03:
        damage(rng, pages)
    fault = None
    x = rng.random()
    if x < 0.3:
        fault = ['read', round(rng.random(), 4), rng.choice(('EIO', 'ESTALE', 'KeyboardInterrupt', 'MemoryError'))]
    elif x < 0.6:
        fault = ['write', round(rng.random(), 4), rng.choice(('EIO', 'ENOSPC', 'EPIPE', 'KeyboardInterrupt')), rng.random() < 0.5]
    elif x < 0.63:
        fault = ['open', rng.choice(('ENOENT', 'EACCES', 'EIO', 'EMFILE'))]
    return dict(type='dump', pages=pages, eof=rng.random() < 0.8, rmax=rng.choice((1, 2, 7, 64, 1000, 8192, 10 ** 6)), wmax=rng.choice((1, 3, 50, 1000, 8192, 10 ** 6)),
                wbuf=rng.choice((1, 16, 512, 8192)), line_buffering=rng.random() < 0.2, fault=fault, again=rng.random() < 0.3)


BAD = ('ff', 'c3', 'e282', 'fe41', 'eda080', 'c0af', '80')


def damage(rng, pages):
    """A line that is not valid UTF-8."""
    p = rng.choice(pages)
    lines = p[1] if p[0] == 'out' else rng.choice((p[2], p[4]))
    lines.insert(rng.randrange(len(lines) + 1), ['bytes', rng.choice(('', '    <comment>')), rng.choice(BAD), rng.choice(('', ' rest'))])


def expand(line):
    if isinstance(line, list) and line[0] == 'bytes':
        return (line[1].encode() + bytes.fromhex(line[2]) + line[3].encode()).decode('utf-8', 'surrogateescape')
    return line[2] * line[1] if isinstance(line, list) else line


def damaged(plan):
    return any(isinstance(l, list) and l[0] == 'bytes' for p in plan['pages'] for k in ((1,) if p[0] == 'out' else (2, 4)) for l in p[k])


def document(plan):
    """All lines, and those that belong in the output."""
    lines, want = [], []
    for p in plan['pages']:
        if p[0] == 'out':
            ls = [expand(l) for l in p[1]]
            lines += ls
            want += ls
        else:
            tail = p[5] if len(p) > 5 else ('', '', '')
            ls = [p[1] + '<page>' + tail[0]] + [expand(l) for l in p[2]] + [p[1] * 2 + '<title>' + p[3] + '</title>' + tail[1]] + [expand(l) for l in p[4]] + [p[1] + '</page>' + tail[2]]
            lines += ls
            if ':' not in p[3]:
                want += ls
    src = ''.join(l + '\n' for l in lines)
    out = ''.join(l + '\n' for l in want)
    if not plan['eof'] and lines:
        src = src[:-1]
        last_kept = plan['pages'][-1][0] == 'out' or ':' not in plan['pages'][-1][3]
        if last_kept and out:
            out = out[:-1]
    return src.encode('utf-8', 'surrogateescape'), out.encode('utf-8', 'surrogateescape')


def error(name):
    if name in ('KeyboardInterrupt', 'MemoryError'):
        return getattr(builtins, name)('simulated')
    return OSError(getattr(errno, name), 'simulated: ' + os.strerror(getattr(errno, name)))


class RawIn(io.RawIOBase):
    def __init__(self, data, rng, rmax, fail_at=None, exc=None):
        self.data = data
        self.pos = 0
        self.rng = rng
        self.rmax = rmax
        self.fail_at = fail_at
        self.exc = exc
        self.fired = 0
        self.name = INPUT
        self.mode = 'rb'

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = min(len(b), self.rng.randint(1, self.rmax), max(0, len(self.data) - self.pos))
        if self.fail_at is not None and (self.pos + n > self.fail_at or n == 0):
            if self.pos >= self.fail_at or n == 0:
                self.fired += 1
                raise error(self.exc)
            n = self.fail_at - self.pos
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class RawOut(io.RawIOBase):
    """Checks with every write that the output so far is a prefix of the right one."""

    def __init__(self, want, rng, wmax, fail_at=None, exc=None, lasting=True):
        self.want = want
        self.out = bytearray()
        self.rng = rng
        self.wmax = wmax
        self.fail_at = fail_at
        self.exc = exc
        self.lasting = lasting
        self.fired = 0
        self.calls = 0
        self.wrong = None
        self.name = '<stdout>'
        self.mode = 'wb'

    def writable(self):
        return True

    def write(self, b):
        self.calls += 1
        b = bytes(b)
        n = min(len(b), self.rng.randint(1, self.wmax))
        if self.fail_at is not None and len(self.out) + n > self.fail_at:
            n = self.fail_at - len(self.out)
            if n <= 0:
                self.fired += 1
                if not self.lasting:
                    self.fail_at = None
                raise error(self.exc)
        at = len(self.out)
        self.out += b[:n]
        if self.wrong is None and self.want[at:at + n] != b[:n]:
            self.wrong = at
        return n


def execute(repo, rin, rout, plan, open_exc=None):
    """Runs the script as from the command line.  Returns what was reported (None: success)."""
    script = os.path.join(repo, SCRIPT)
    real_open, real_io_open = builtins.open, io.open
    opened = []

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if os.fspath(file) != INPUT if not isinstance(file, int) else True:
            return real_open(file, mode, buffering, encoding, errors, newline, *a, **k)
        opened.append(mode)
        if open_exc is not None:
            e = getattr(errno, open_exc)
            raise OSError(e, os.strerror(e), INPUT)
        if set(mode) - set('rbt'):
            raise Violation('overwrites', 'the dump is opened with mode %r' % mode)
        if buffering == 0:
            return rin
        b = io.BufferedReader(rin, buffering if buffering > 1 else 8192)
        if 'b' in mode:
            return b
        return io.TextIOWrapper(b, encoding=encoding or 'utf-8', errors=errors, newline=newline)
    out = io.TextIOWrapper(io.BufferedWriter(rout, plan['wbuf']), encoding='utf-8', newline='\n', line_buffering=plan['line_buffering'])
    old = sys.stdout, sys.argv, sys.stderr
    reported = None
    err = io.StringIO()
    try:
        sys.stdout, sys.argv, sys.stderr = out, [script, INPUT], err
        builtins.open = io.open = sim_open
        try:
            runpy.run_path(script, run_name='__main__')
        except SystemExit as e:
            if e.code not in (None, 0):
                reported = 'exit status %r' % (e.code,)
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, Violation):
                raise
            reported = '%s: %s' % (type(e).__name__, e)
        # what the interpreter does at its end
        try:
            sys.stdout.flush()
        except (Exception, KeyboardInterrupt) as e:
            if reported is None:
                reported = 'at the end: %s' % e
        if reported is None and sys.stdout is not out:
            try:
                out.flush()
            except (Exception, KeyboardInterrupt) as e:
                reported = 'at the end: %s' % e
    finally:
        sys.stdout, sys.argv, sys.stderr = old
        builtins.open, io.open = real_open, real_io_open
        try:
            out.detach().detach()
        except (Exception, KeyboardInterrupt):
            rout.fail_at = None
            try:
                out.detach().detach()
            except Exception:
                pass
    return reported


def simulate(plan, ctx, fault, src, want):
    rng = ctx.rng
    f = fault[0] if fault else None
    rin = RawIn(src, rng, plan['rmax'])
    rout = RawOut(want, rng, plan['wmax'])
    if f == 'read':
        rin.fail_at, rin.exc = int(fault[1] * (len(src) + 1)), fault[2]
    elif f == 'write':
        rout.fail_at, rout.exc, rout.lasting = int(fault[1] * max(1, len(want))), fault[2], fault[3]
        if not want:
            rout.fail_at = None
    reported = execute(seams._installed, rin, rout, plan, fault[1] if f == 'open' else None)
    fired = rin.fired or rout.fired or f == 'open'
    out = bytes(rout.out)
    ctx.cases += 1
    ctx.log(f, fired, reported, len(out), zlib.crc32(src), zlib.crc32(out), rout.calls)
    at = rout.wrong
    if at is not None:
        raise Violation('output', 'byte %d of the output: %r, it should be %r' % (at, out[max(0, at - 40):at + 40], want[max(0, at - 40):at + 40]))
    if len(out) > len(want):
        raise Violation('output', 'the output goes on after its end: %r' % out[len(want):len(want) + 80])
    if fired:
        ctx.fault('%s_%s' % (f, fault[1] if f == 'open' else fault[2]))
        if reported is None:
            raise Violation('swallowed', 'the failure (%s) was not reported; %d of %d bytes were written' % (fault, len(out), len(want)))
    else:
        if reported is not None and damaged(plan):
            ctx.fault('damaged_input')
            return
        if reported is not None:
            raise Violation('fails', 'an error without a failure: %s' % reported)
        if out != want:
            raise Violation('output', 'the output ends after %d of %d bytes, before %r' % (len(out), len(want), want[len(out):len(out) + 80]))
    if plan['rmax'] < 8192:
        ctx.fault('short_reads')
    if plan['wmax'] < 8192:
        ctx.fault('short_writes')
    ctx.order([p[0] if p[0] == 'out' else ':' in p[3] for p in plan['pages']], plan['rmax'], plan['wmax'], fault)
    ctx.state((len(out), out[-20:]))


def run(plan, ctx, prop):
    if any(not (p[0] == 'out' or len(p) == 5 or len(p) == 6 and len(p[5]) == 3) for p in plan['pages']):
        raise core.Unusable('plan')
    src, want = document(plan)
    simulate(plan, ctx, plan['fault'], src, want)
    if plan['fault'] and plan['again']:
        # and again, without a failure
        simulate(plan, ctx, None, src, want)


def simplify(plan):
    for k, v in (('fault', None), ('again', False), ('rmax', 10 ** 6), ('wmax', 10 ** 6), ('line_buffering', False), ('eof', True)):
        if plan.get(k) != v:
            p = dict(plan)
            p[k] = v
            yield p
    for n, p in enumerate(plan['pages']):
        for k in (2, 4):
            if p[0] == 'page' and p[k]:
                q = list(p)
                q[k] = []
                yield dict(plan, pages=plan['pages'][:n] + [q] + plan['pages'][n + 1:])
