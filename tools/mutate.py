"""Mutation survey (development tool, not a check): single-site changes of the package that pass its tests;
which of the checks notices them?   mutate.py FILE[:FUNC...] ... > report"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import glob
import collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '*', ast.Mod: '*'}
SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.MatMult: '@'}
NAMES = {'sin': ['cos'], 'cos': ['sin'], 'min': ['max'], 'max': ['min'], 'any': ['all'], 'all': ['any'],
         'arcsin': ['arccos'], 'arccos': ['arcsin'], 'degrees': ['radians'], 'radians': ['degrees'], 'abs': ['array'],
         'array': ['asarray'], 'sqrt': ['square'], 'tan': ['sin'], 'arctan': ['arcsin'], 'vstack': ['hstack'],
         'column_stack': ['vstack'], 'ones': ['zeros'], 'zeros': ['ones'], 'sum': ['mean'], 'mean': ['sum'],
         'copy': ['view'], 'inv': ['pinv'], 'floor': ['ceil'], 'ceil': ['floor'], 'append': ['index'],
         'extend': ['index'], 'get': ['pop'], 'setdefault': ['get'], 'update': ['copy']}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, why, rng=None):
        a, e = rng or span(n)
        out.append((n.lineno, why, b[:a] + new.encode() + b[e:]))

    def text(n):
        a, e = span(n)
        return b[a:e].decode()
    funcs = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if hasattr(n, 'lineno'):
                    funcs[id(n)] = f.name
    docs = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef, ast.Module)) and f.body and isinstance(f.body[0], ast.Expr) \
                and isinstance(f.body[0].value, ast.Constant):
            docs.add(id(f.body[0]))
            docs.add(id(f.body[0].value))
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    for n in ast.walk(tree):
        if id(n) not in funcs or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp ' + o)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                add(n, '(%s%s%s)' % (text(n.left), o, text(n.right)), '%s -> %s' % (SYM[type(n.op)], o))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, text(n.operand), 'drop minus')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), 'drop not')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'flip %s' % v)
            elif isinstance(v, int):
                add(n, str(v + 1), '%s+1' % v)
                if v > 0:
                    add(n, str(v - 1), '%s-1' % v)
            elif isinstance(v, float):
                add(n, repr(v * 1.01), '%s*1.01' % v)
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
            for r in NAMES.get(nm, []):
                a, e = span(n.func)
                add(n, r, '%s -> %s' % (nm, r), (e - len(nm), e))
            if nm == 'copy' and isinstance(n.func, ast.Attribute) and not n.args:
                add(n, text(n.func.value), 'drop copy')
            if len(n.args) == 1 and not n.keywords and nm in ('abs', 'sqrt', 'float', 'array', 'sorted', 'list', 'tuple',
                                                              'vector', 'normalize', 'degrees', 'radians', 'centered'):
                add(n, text(n.args[0]), 'drop %s' % nm)
            if len(n.args) == 2 and not n.keywords:
                add(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'swap args of ' + nm)
            for k in n.keywords:
                if k.arg:
                    rest = [text(x) for x in n.args] + [('%s=%s' % (q.arg, text(q.value))) if q.arg else '**' + text(q.value)
                                                        for q in n.keywords if q is not k]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'drop keyword ' + k.arg)
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, text(n.value), 'drop .T')
        elif isinstance(n, ast.If):
            a, e = span(n.test)
            out.append((n.lineno, 'if True', b[:a] + b'True' + b[e:]))
            out.append((n.lineno, 'if False', b[:a] + b'False' + b[e:]))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not isinstance(par[id(n)], ast.Module):
            add(n, 'pass', 'delete statement')
        elif isinstance(n, ast.BoolOp):
            o = ' and ' if isinstance(n.op, ast.Or) else ' or '
            add(n, o.join('(%s)' % text(v) for v in n.values), 'bool' + o)
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n.value, 'abs(%s)' % text(n.value), 'return abs')
        elif isinstance(n, ast.IfExp):
            add(n, text(n.body), 'ifexp body')
            add(n, text(n.orelse), 'ifexp else')
    res, seen = [], set()
    for ln, why, t in out:
        if t in seen or t == b:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        seen.add(t)
        fn = ''
        res.append((ln, why, t, lines[ln - 1].strip()))
    return res


def worker_tree():
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    subprocess.run(['cp', '-a', REPO + '/.', d], check=True)
    return d


STABLE = None


def tests_pass(d):
    """the repository's own tests, run in the copy"""
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-o', 'python_files=test_*.py *_test.py tests.py __init__.py'] + STABLE, cwd=d,
                       capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
    return p.returncode == 0


def main():
    global STABLE
    args = sys.argv[1:]
    checks_for = collections.defaultdict(set)
    for f in glob.glob(VERIF + '/evidence/C*.json'):
        d = json.load(open(f))
        for fn in d['coverage']['functions_under_contract']:
            checks_for[fn.split(':')[0]].add((d['wall_s'], d['property']))
    rel = args[0]
    only = args[2].split(',') if len(args) > 2 else None
    out = args[1]
    STABLE = json.load(open('/tmp/stable.json'))
    ms = mutants(os.path.join(REPO, rel))
    checks = only or [p for _, p in sorted(checks_for[rel])]
    print(rel, len(ms), 'mutants', checks, flush=True)
    trees = [worker_tree() for _ in range(7)]
    alive = []

    def t(im):
        i, m = im
        d = trees.pop()
        try:
            with open(os.path.join(d, rel), 'wb') as f:
                f.write(m[2])
            try:
                ok = subprocess.run(['/opt/venv/bin/python', '-c', 'import attitude'], cwd=d, capture_output=True,
                                    env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')).returncode == 0 and tests_pass(d)
            except Exception:
                ok = False
            return m if ok else None
        finally:
            trees.append(d)
    with ThreadPoolExecutor(7) as ex:
        alive = [m for m in ex.map(t, enumerate(ms)) if m]
    print(len(alive), 'pass the tests', flush=True)
    d = trees[0]
    orig = open(os.path.join(REPO, rel), 'rb').read()
    surv = 0
    with open(out, 'a') as log:
        for ln, why, txt, line in alive:
            with open(os.path.join(d, rel), 'wb') as f:
                f.write(txt)
            res = None
            for c in checks:
                p = subprocess.run([VERIF + '/check', c], capture_output=True, text=True, cwd=VERIF,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/mutev', PYTHONDONTWRITEBYTECODE='1'))
                if p.returncode == 1:
                    res = c + ' ' + ' '.join(l for l in p.stdout.split('\n') if l.startswith('failed'))[:120]
                    break
                if p.returncode != 0:
                    res = 'ERR %s %s' % (c, (p.stdout + p.stderr)[-200:])
                    break
            if res is None:
                surv += 1
            print('%s %s:%d %-20s | %s | %s' % ('SURVIVED' if res is None else 'killed', rel, ln, why, line[:90], res or ''), file=log, flush=True)
    print(rel, 'survivors', surv, 'of', len(alive), flush=True)
    for x in trees:
        shutil.rmtree(x)


main()
