"""Confirms planted bugs in scratch copies of /repo and keeps them in /verif/seeded.

usage: plant.py BUGS.py [ID...]   BUGS.py calls bug(id, property, edits, demo, needs, breaks)
       plant.py --check [ID...]   runs the check of the property of each kept bug against it
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('PLANT_DIR') or os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
PRE = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def copy():
    d = tempfile.mkdtemp(prefix='wt-')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def run(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(d):
    rc, out = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=gb/hypergraph/tests/test_mysql.py', '--continue-on-collection-errors', '-rA', 'gb'], d)
    for f in ('test.db', 'test.db-journal'):
        if os.path.exists(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))
    passed = set(re.findall(r'^PASSED (\S+)', out, re.M))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    have = set()
    for p in passed:
        f, rest = p.split('::', 1)
        have.add(f[:-3].replace('/', '.') + '.' + rest)
    return [t for t in stable if t not in have], out


def bug(ident, prop, edits, demo, needs, breaks, sh=SH, files=()):
    if ONLY and ident not in ONLY:
        return
    target = os.path.join(SEEDED, ident)
    d = copy()
    try:
        scratch = tempfile.mkdtemp(prefix='demo-')
        with open(os.path.join(scratch, 'demo.py'), 'w') as f:
            f.write(PRE + demo)
        with open(os.path.join(scratch, 'demo.sh'), 'w') as f:
            f.write(sh)
        os.chmod(os.path.join(scratch, 'demo.sh'), 0o755)
        for name, text in files:
            with open(os.path.join(scratch, name), 'w') as f:
                f.write(text)
        rc0, out0 = run(['bash', os.path.join(scratch, 'demo.sh')], d)
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            assert s.count(old) == 1, (ident, path, s.count(old), old)
            with open(p, 'w') as f:
                f.write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=d)
        rc1, out1 = run(['bash', os.path.join(scratch, 'demo.sh')], d)
        missing, tout = tests(d)
        left = subprocess.check_output(['git', 'status', '--short'], cwd=d).decode()
        ok = rc0 == 0 and rc1 not in (0,) and not missing
        print(ident, 'OK' if ok else 'BAD', 'demo', rc0, rc1, 'tests missing', missing, left.replace('\n', ';'))
        if rc0 != 0:
            print(out0[-1500:])
        if rc1 == 0 or '-v' in sys.argv or not ok:
            print(out1[-1500:])
        else:
            print('    ', out1.strip().split('\n')[-1][:200])
        if ok:
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(scratch, target)
            with open(os.path.join(target, 'patch.diff'), 'wb') as f:
                f.write(diff)
            with open(os.path.join(target, 'meta.json'), 'w') as f:
                json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
                f.write('\n')
        shutil.rmtree(scratch)
    finally:
        shutil.rmtree(d)


def check(idents):
    results = {}
    for ident in sorted(os.listdir(SEEDED)):
        if idents and ident not in idents:
            continue
        meta = json.load(open(os.path.join(SEEDED, ident, 'meta.json')))
        d = copy()
        try:
            p = subprocess.run(['git', 'apply', os.path.join(SEEDED, ident, 'patch.diff')], cwd=d)
            if p.returncode:
                print(ident, 'DOES NOT APPLY')
                continue
            p = subprocess.run([os.path.join(VERIF, 'check'), meta['property'], '--repo', d], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200,
                               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            out = p.stdout.decode(errors='replace')
            hit = [l for l in out.split('\n') if l.startswith('VIOLATION')]
            results[ident] = p.returncode
            print(ident, meta['property'], 'CAUGHT' if p.returncode == 1 and hit else 'MISSED rc=%d' % p.returncode, (out.strip().split('\n') or [''])[-1][:260], flush=True)
        finally:
            shutil.rmtree(d)
    print('caught', sum(1 for r in results.values() if r == 1), 'of', len(results))


ONLY = []
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--check' in sys.argv:
        check(args)
    else:
        ONLY = args[1:]
        exec(compile(open(args[0]).read(), args[0], 'exec'))
