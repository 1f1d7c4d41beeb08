"""Small changes of the source, one at a time: which of those that pass the tests does no check notice?

usage: mutate.py OUT.jsonl [file prefix ...]      (continues where an earlier run stopped; N=workers)
"""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock, local

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('BASE', '/repo')
OUT = '/tmp/mu'
PY = '/opt/venv/bin/python'


def is_log(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split('.')[0] in ('logger', 'logging', 'warnings')


def mutants(tree):
    """[(label, line, function that changes a copy of the tree)]; nodes are named by their position in ast.walk"""
    nodes = list(ast.walk(tree))
    where = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(n):
                where[id(x)] = where.get(id(x), '') + '.' + n.name
    skip = set()
    for n in nodes:
        if isinstance(n, ast.stmt) and is_log(n) or isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, ast.If) and 'main' in ast.unparse(n.test) and '__name__' in ast.unparse(n.test):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.name in ('__str__', '__repr__'):
            skip |= {id(x) for x in ast.walk(n)}
    res = []

    def add(label, n, i, change):
        res.append((label, n.lineno, where.get(id(n), ''), i, change))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if not (isinstance(v, list) and v and isinstance(v[0], ast.stmt)):
                continue
            for j, st in enumerate(v):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.For)) and not is_log(st) and not (
                        isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not isinstance(n, ast.Module):
                    def drop(m, f=f, j=j):
                        getattr(m, f)[j] = ast.copy_location(ast.Pass(), getattr(m, f)[j])
                    add('drop ' + ast.unparse(st).split('\n')[0][:80], st, i, drop)
                if isinstance(st, ast.If) and st.orelse:
                    def noelse(m, f=f, j=j):
                        getattr(m, f)[j].orelse = []
                    add('no else of ' + ast.unparse(st.test)[:60], st, i, noelse)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def neg(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            add('not ' + ast.unparse(n.test)[:70], n, i, neg)
            if isinstance(n, ast.If):
                for c in (True, False):
                    def const(m, c=c):
                        m.test = ast.Constant(c)
                    add('{} for {}'.format(c, ast.unparse(n.test)[:70]), n, i, const)
        if isinstance(n, ast.BoolOp):
            def flip(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add('flip ' + ast.unparse(n)[:70], n, i, flip)
            for k in range(len(n.values)):
                def without(m, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        m.values = m.values * 2
                add('without {} of {}'.format(k, ast.unparse(n)[:70]), n, i, without)
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            def bound(m):
                m.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(m.ops[0])]()
            add('bound ' + ast.unparse(n)[:70], n, i, bound)
        if isinstance(n, ast.Call) and n.keywords:
            for k, kw in enumerate(n.keywords):
                def nokw(m, k=k):
                    del m.keywords[k]
                add('no {} for {}'.format(kw.arg or '**', ast.unparse(n.func)[:60]), n, i, nokw)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not isinstance(n.func, ast.Name):
            def swap(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            add('swap arguments of ' + ast.unparse(n)[:70], n, i, swap)
        if isinstance(n, ast.Dict) and all(k is not None for k in n.keys) and len(n.keys) > 0:
            for k in range(len(n.keys)):
                def nokey(m, k=k):
                    del m.keys[k]
                    del m.values[k]
                add('no key ' + ast.unparse(n.keys[k])[:40], n.keys[k], i, nokey)
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1 and all(isinstance(e, ast.Constant) for e in n.elts):
            for k in range(len(n.elts)):
                def noelt(m, k=k):
                    del m.elts[k]
                add('no element ' + ast.unparse(n.elts[k])[:40], n.elts[k], i, noelt)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool) and not isinstance(n.value, str):
            def nb(m):
                m.value = not m.value
            add('{} for {}'.format(not n.value, n.value), n, i, nb)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            def nn(m):
                m.value = m.value + 1
            add('{} for {}'.format(n.value + 1, n.value), n, i, nn)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            def rn(m):
                m.value = ast.Constant(None)
            add('return None for ' + ast.unparse(n.value)[:60], n, i, rn)
        if isinstance(n, ast.ExceptHandler):
            def reraise(m):
                m.body = [ast.Raise()]
            add('raise on ' + (ast.unparse(n.type) if n.type else ''), n, i, reraise)
            if any(isinstance(x, ast.Raise) for x in n.body):
                def swallow(m):
                    m.body = [ast.Pass()]
                add('swallow ' + (ast.unparse(n.type) if n.type else ''), n, i, swallow)
        if isinstance(n, ast.Continue):
            pass
    return res


POOL = local()
LOCK = Lock()
COUNT = [0]


def space():
    if not hasattr(POOL, 'dir'):
        with LOCK:
            COUNT[0] += 1
            k = COUNT[0]
        POOL.dir = os.path.join(OUT, 'w%d' % k)
        shutil.rmtree(POOL.dir, ignore_errors=True)
        shutil.copytree(BASE, POOL.dir, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return POOL.dir


def checks_of():
    """check -> (seconds, functions analysed)"""
    res = {}
    for p in sorted(glob.glob(VERIF + '/sa/rules/c[0-9]*.py')):
        prop = 'C' + os.path.basename(p)[1:3]
        t = time.time()
        subprocess.run([sys.executable, VERIF + '/check.py', prop], capture_output=True)
        cov = json.load(open('{}/evidence/{}.json'.format(VERIF, prop)))['coverage']
        res[prop] = (time.time() - t, {f.rsplit('.', 1)[-1] for f in cov['functions_analysed']})
    return res


def main():
    out = sys.argv[1]
    only = sys.argv[2:]
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d['file'], d['label'], d['line'], d['i']))
    order = sorted(checks_of().items(), key=lambda x: x[1][0])
    jobs = []
    for p in sorted(glob.glob(BASE + '/src/oidcrp/**/*.py', recursive=True)):
        rel = os.path.relpath(p, BASE + '/src/oidcrp')
        if only and not any(rel.startswith(o) for o in only):
            continue
        text = open(p).read()
        tree = ast.parse(text)
        for label, line, where, i, change in mutants(tree):
            if (rel, label, line, i) not in done:
                jobs.append((rel, text, label, line, where, i, change))
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'mutants', {k: round(v[0], 1) for k, v in order}, flush=True)

    def one(job):
        rel, text, label, line, where, i, change = job
        d = space()
        tree = ast.parse(text)
        node = list(ast.walk(tree))[i]
        change(node)
        path = os.path.join(d, 'src/oidcrp', rel)
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
            compile(new, rel, 'exec')
        except Exception:
            return
        with open(path, 'w') as fp:
            fp.write(new + '\n')
        try:
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, capture_output=True, text=True, timeout=120,
                                   env={**os.environ, 'PYTHONPATH': d + '/src', 'PYTHONDONTWRITEBYTECODE': '1'})
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            res = {'file': rel, 'line': line, 'where': where, 'label': label, 'i': i, 'tests': rc == 0, 'by': []}
            if rc == 0:
                for prop, (secs, fs) in order:
                    if secs > 1.2 and not set(where.split('.')) & (fs | {'__init__'}):
                        continue
                    c = subprocess.run([sys.executable, VERIF + '/check.py', prop], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d, 'VERIF_NOEV': '1'}, timeout=900)
                    if c.returncode:
                        res['by'].append(prop)
                        break
            with LOCK, open(out, 'a') as fp:
                fp.write(json.dumps(res) + '\n')
        finally:
            with open(path, 'w') as fp:
                fp.write(text)
    with ThreadPoolExecutor(int(os.environ.get('N', '8'))) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()


if __name__ == '__main__':
    main()
