"""Mechanical mutants of the code under test: which survive its tests, and which of those the checks detect.

usage: mutate.py FILE PROPS [--sample N] [--seed S] [--fraction F] [--out LOG]
Works in a scratch copy of /repo, which it removes."""
import argparse
import ast
import copy
import json
import os
import random
import re
import subprocess
import sys
import shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
SQLS = [('>=', '>'), ('id<%s', 'id<=%s'), (' AND id<%s', ''), ('+1', '+2'), ('-1', '-2'), ('DEFAULT 0', 'DEFAULT 1'), ('DEFAULT -1', 'DEFAULT 0'), ('BEGIN IMMEDIATE', 'BEGIN'), (' PRIMARY KEY', ''),
        ('DELETE FROM vertices', 'DELETE FROM vertices WHERE degree>0'), ('ROLLBACK TO SAVEPOINT', 'RELEASE SAVEPOINT'), ('InnoDB', 'MyISAM'), ('utf8_bin', 'utf8_general_ci'), ('%s ', '%s'), ('%s/', '%s'), ("'/'", "'_'")]


def mutants(src):
    """(description, mutated source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    out = []

    def variant(i, change, what):
        t = copy.deepcopy(tree)
        ns = list(ast.walk(t))
        r = change(ns[i])
        if r is False:
            return
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            ast.parse(s)
        except Exception:
            return
        if s != ast.unparse(tree):
            out.append(('%s line %d: %s' % (what, getattr(nodes[i], 'lineno', 0), ast.unparse(nodes[i])[:90].replace('\n', ' / ')), s))

    docs = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                variant(i, lambda m, k=k, o=o: m.ops.__setitem__(k, CMP[type(o)]()), 'cmp')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            variant(i, lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()), 'arith')
        if isinstance(n, ast.BoolOp):
            variant(i, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()), 'bool')
            for k in range(len(n.values)):
                variant(i, lambda m, k=k: m.values.pop(k) and None, 'drop operand')
        if isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if isinstance(v, bool):
                variant(i, lambda m: setattr(m, 'value', not m.value), 'flip')
            elif isinstance(v, int):
                variant(i, lambda m: setattr(m, 'value', m.value + 1), '+1')
                variant(i, lambda m: setattr(m, 'value', m.value - 1), '-1')
            elif isinstance(v, str) and len(v) > 1:
                for a, b in SQLS:
                    if a in v:
                        variant(i, lambda m, a=a, b=b: setattr(m, 'value', m.value.replace(a, b)), 'string %r->%r' % (a, b))
        if isinstance(n, (ast.If, ast.While)):
            variant(i, lambda m: setattr(m, 'test', ast.Constant(False)), 'never')
            if isinstance(n, ast.If):
                variant(i, lambda m: setattr(m, 'test', ast.Constant(True)), 'always')
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                variant(i, lambda m, k=k: m.keywords.pop(k) and None, 'drop keyword')
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            variant(i, lambda m: setattr(m, 'decorator_list', []), 'undecorate')
        if isinstance(n, ast.Try):
            variant(i, lambda m: [setattr(h, 'body', [ast.Pass()]) for h in m.handlers] and None, 'swallow')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            variant(i, lambda m: setattr(m, 'type', ast.Name('ValueError', ast.Load())), 'narrow')
            variant(i, lambda m: setattr(m, 'type', ast.Name('Exception', ast.Load())), 'except Exception')
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for k, st in enumerate(b):
                if st in docs or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    continue
                variant(i, lambda m, k=k, f=field: getattr(m, f).__setitem__(k, ast.Pass()), 'delete [%s] in' % ast.unparse(st)[:70].replace('\n', ' / '))
                if k + 1 < len(b) and b[k + 1] not in docs and not isinstance(b[k + 1], (ast.FunctionDef, ast.ClassDef)):
                    def swap(m, k=k, f=field):
                        l = getattr(m, f)
                        l[k], l[k + 1] = l[k + 1], l[k]
                    variant(i, swap, 'swap [%s] in' % ast.unparse(st)[:70].replace('\n', ' / '))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('props')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--fraction', type=float, default=0.3)
    ap.add_argument('--out', default='/dev/stdout')
    a = ap.parse_args()
    sys.path.insert(0, plant.VERIF)
    from sim.spec import SPECS
    d = plant.copy()
    path = os.path.join(d, a.file)
    src = open(path).read()
    ms = mutants(src)
    if a.sample and a.sample < len(ms):
        ms = random.Random(a.seed).sample(ms, a.sample)
    log = open(a.out, 'a')
    print('%d mutants of %s' % (len(ms), a.file), file=log, flush=True)
    try:
        for what, text in ms:
            with open(path, 'w') as f:
                f.write(text)
            try:
                bad, _ = plant.tests(d)
            except subprocess.TimeoutExpired:
                bad = ['timeout']
            if bad:
                print('T', what, file=log, flush=True)
                continue
            caught = None
            for p in a.props.split(','):
                try:
                    r = subprocess.run([os.path.join(plant.VERIF, 'check'), p, '--repo', d, '--no-evidence', '--budget', '5', '--runs', str(max(100, int(SPECS[p]['quick'] * a.fraction)))],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    if r.returncode == 1:
                        caught = p
                        break
                    if r.returncode != 0:
                        caught = p + ' (rc %d: %s)' % (r.returncode, r.stdout.decode()[-200:])
                        break
                except subprocess.TimeoutExpired:
                    caught = p + ' timeout'
                    break
            print('C' if caught else 'SURVIVED', caught or '', what, file=log, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
