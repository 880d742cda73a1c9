#!/usr/bin/env python3
"""Mutation testing of the checks (development only; no check or demo uses this).

mutate.py list [FILE...]                 count the mutants
mutate.py tests DIR [FILE...]            run the stable tests on every mutant -> DIR/survivors.json
mutate.py checks DIR COVERAGE [LIMIT_S [SHARD SHARDS]]  run the checks that execute the line (COVERAGE: see coverage.py) -> DIR/result.jsonl
"""
import ast
import json
import os
import re
import shutil
import subprocess as sp
import sys
import time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
SRC = '/repo/src/eventio'

CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '//', ast.LShift: '>>',
       ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.raw = text.encode()
        self.out = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((n.lineno, a, b, new, kind))

    def visit_Compare(self, n):
        for i, op in enumerate(n.ops):
            left = n.left if i == 0 else n.comparators[i - 1]
            a, b = self.span(left)[1], self.span(n.comparators[i])[0]
            for new in CMP.get(type(op), []):
                self.out.append((n.lineno, a, b, ' {} '.format(new), 'compare'))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        word = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, word.join(self.src(v) for v in n.values), 'bool')
        for v in n.values:
            self.add(n, self.src(v), 'one operand') if len(n.values) == 2 else None
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, '({})'.format(self.src(n.operand)), 'unary')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, '({}) {} ({})'.format(self.src(n.left), BIN[type(n.op)], self.src(n.right)), 'binop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), 'bool constant')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'constant+1')
            if v > 0:
                self.add(n, str(v - 1), 'constant-1')
        elif isinstance(v, str):
            m = re.fullmatch(r'([<>=]?)([iuf])([1248])', v)
            if m:
                self.add(n, repr(m[1] + {'i': 'u', 'u': 'i', 'f': 'i'}[m[2]] + m[3]), 'dtype')
            elif re.fullmatch(r'[<>=]?\d*[hHiIbBqQlL]', v):
                self.add(n, repr(v.swapcase()), 'format')

    def visit_If(self, n):
        self.add(n.test, 'True', 'if true')
        self.add(n.test, 'False', 'if false')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.src(n.body), 'ifexp')
        self.add(n, self.src(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, 'pass', 'deleted')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'pass', 'deleted')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'deleted')
        self.add(n, '{} = {}'.format(self.src(n.target), self.src(n.value)), 'no augment')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, 'pass', 'no raise')

    def visit_Break(self, n):
        self.add(n, 'pass', 'no break')

    def visit_Continue(self, n):
        self.add(n, 'pass', 'no continue')

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            self.add(n, self.src(n.func.value), 'no copy')
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1 and k is n.keywords[-1]:
                a = self.span(n.args[-1] if len(n.keywords) == 1 and n.args else n.keywords[-2].value if len(n.keywords) > 1 else n.func)[1]
                self.out.append((k.value.lineno, a, self.span(k.value)[1], '', 'no keyword'))
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__'):
            return
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)


def mutants(files):
    out = []
    for rel in files:
        text = open(os.path.join(SRC, rel)).read()
        f = Finder(text)
        f.visit(ast.parse(text))
        for line, a, b, new, kind in sorted(set(f.out)):
            raw = f.raw[:a] + new.encode() + f.raw[b:]
            try:
                compile(raw, rel, 'exec')
            except SyntaxError:
                continue
            out.append({'file': rel, 'line': line, 'a': a, 'b': b, 'new': new, 'kind': kind,
                        'old': f.raw[a:b].decode(), 'text': f.lines[line - 1].strip()})
    return out


def all_files():
    out = []
    for root, _, names in os.walk(SRC):
        out += [os.path.relpath(os.path.join(root, n), SRC) for n in sorted(names) if n.endswith('.py')]
    return [f for f in sorted(out) if not f.startswith('_') and f not in ('version.py', 'exceptions.py')]


def apply(m, pkg):
    p = os.path.join(pkg, m['file'])
    raw = open(os.path.join(SRC, m['file']), 'rb').read()
    with open(p, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(m, pkg):
    shutil.copy(os.path.join(SRC, m['file']), os.path.join(pkg, m['file']))


def key(m):
    return '{}:{}:{}:{}'.format(m['file'], m['a'], m['b'], m['new'])


def phase_tests(d, files):
    os.makedirs(d, exist_ok=True)
    ms = mutants(files)
    done = {}
    log = os.path.join(d, 'tests.jsonl')
    if os.path.exists(log):
        done = {r['key']: r for r in map(json.loads, open(log))}
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = Queue()
    for i in range(8):
        w = os.path.join(d, 'repo%d' % i)
        shutil.rmtree(w, ignore_errors=True)
        sp.run(['cp', '-a', '/repo', w], check=True)
        q.put(w)
    out = open(log, 'a')

    def one(m):
        if key(m) in done:
            return
        w = q.get()
        try:
            apply(m, w + '/src/eventio')
            env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PATH='/opt/venv/bin:' + os.environ['PATH'])
            x = w + '/junit.xml'
            if os.path.exists(x):
                os.remove(x)
            try:
                sp.run(['timeout', '-s', 'KILL', '40', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=30', '--continue-on-collection-errors',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd=w, env=env, stdout=sp.DEVNULL, stderr=sp.DEVNULL, timeout=45)
                passed = set()
                for c in ET.parse(x).iter('testcase'):
                    if not any(y.tag in ('failure', 'error', 'skipped') for y in c):
                        passed.add('{}::{}'.format(c.get('classname'), c.get('name')))
                missing = len(stable - passed)
            except Exception:
                missing = -1
            out.write(json.dumps(dict(m, key=key(m), missing=missing)) + '\n')
            out.flush()
        finally:
            restore(m, w + '/src/eventio')
            q.put(w)

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, ms))
    for i in range(8):
        shutil.rmtree(os.path.join(d, 'repo%d' % i))


COST = dict(zip(['C%02d' % i for i in range(1, 39)], [
    12, 19, 22, 25, 15, 35, 33, 110, 5, 25, 5, 5, 30, 20, 3, 3, 25, 12, 15, 16, 18, 31, 14, 9, 9, 75, 60, 28, 36, 12, 13, 40, 29, 20, 130, 60, 60, 50]))


def candidates(m, cover):
    cs = [c for c, lines in cover.items() if m['line'] in lines.get('eventio/' + m['file'], ())]
    f = m['file']
    if f in ('simtel/objects.py', 'iact/objects.py', 'histograms.py', 'simtel/runheader_dtypes.py', 'simtel/pixelset.py'):
        own = [c for c in cs if 'C16' <= c <= 'C25']
        cs = own + [c for c in ('C30', 'C15', 'C14') if c in cs]
    elif f.startswith('scripts'):
        cs = [c for c in cs if 'C31' <= c <= 'C36' and c != 'C35']
    elif f in ('base.py', 'file_types.py', 'constants.py', 'version_handling.py', 'exceptions.py'):
        cs = [c for c in cs if c <= 'C10' or c in ('C14', 'C15', 'C26', 'C34', 'C38')]
    elif f == 'tools.py':
        cs = [c for c in cs if c in ('C13', 'C16', 'C18', 'C19', 'C20', 'C22', 'C23', 'C25')]
    elif f == 'search_utils.py':
        cs = [c for c in cs if c in ('C34', 'C32', 'C07')]
    elif f == 'simtel/simtelfile.py':
        cs = [c for c in cs if c in ('C27', 'C28', 'C29', 'C08', 'C10', 'C37')]
    elif f == 'iact/__init__.py':
        cs = [c for c in cs if c in ('C26', 'C08', 'C10')]
    return cs


def phase_checks(d, coverage, limit, shard=0, shards=1):
    import check
    rows = [r for r in map(json.loads, open(os.path.join(d, 'tests.jsonl'))) if r['missing'] == 0 and r['file'] != 'constants.py']
    # every third first, so that an early end still covers all files; one large table-like file last
    rows = [r for k in range(3) for big in (False, True) for i, r in enumerate(rows)
            if i % 3 == k and (r['file'] == 'simtel/objects.py') == big]
    rows = [r for r in rows if re.search(os.environ.get('MUTATE_FILES', ''), r['file'])][shard::shards]
    log = os.path.join(d, 'result.jsonl')
    done = set()
    killers = {}
    if os.path.exists(log):
        for r in map(json.loads, open(log)):
            done.add(r['key'])
            if r['killed']:
                killers.setdefault(r['file'], {}).setdefault(r['killed'], []).append(r['line'])
    cover = {}
    for c in os.listdir(coverage):
        cover[c] = {}
        for n in os.listdir(os.path.join(coverage, c)):
            for l in open(os.path.join(coverage, c, n)):
                f = l.split()
                if f[0] == 'L':
                    cover[c].setdefault(f[1], set()).add(int(f[2]))
    scratch = os.path.join(d, 'base%s%d' % (os.environ.get('MUTATE_NAME', ''), shard))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    src = check.build('/repo', scratch)
    out = open(log, 'a')
    t0 = time.time()
    current = {key(m): m['old'] for m in mutants(sorted({m['file'] for m in rows}))}
    for m in rows:
        if m['key'] in done or key(m) not in current:
            continue
        if time.time() - t0 > limit:
            break
        cs = candidates(m, cover)
        k = killers.setdefault(m['file'], {})

        def rank(c):
            near = min((abs(m['line'] - x) for x in k.get(c, [])), default=999)
            return (0 if near < 12 else 1, COST[c])
        cs.sort(key=rank)
        apply(m, src + '/eventio')
        killed, ran, t1 = None, [], time.time()
        for c in cs:
            r = sp.run(['timeout', '400', sys.executable, HERE + '/check.py', c, '--src', src, '--repo', '/repo'],
                       stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
            ran.append((c, r.returncode))
            if r.returncode == 1:
                killed = c
                k.setdefault(c, []).append(m['line'])
                break
            if r.returncode not in (0, 1):
                killed = 'ERROR ' + c
                break
        restore(m, src + '/eventio')
        out.write(json.dumps(dict(m, killed=killed, ran=ran, s=round(time.time() - t1))) + '\n')
        out.flush()


def main():
    a = sys.argv[1:]
    if a[0] == 'list':
        ms = mutants(a[1:] or all_files())
        for f in sorted({m['file'] for m in ms}):
            print(f, sum(m['file'] == f for m in ms))
        print(len(ms))
    elif a[0] == 'tests':
        phase_tests(a[1], a[2:] or all_files())
    else:
        phase_checks(a[1], a[2], float(a[3]) if len(a) > 3 else 1e9, *map(int, a[4:6]))


main()
