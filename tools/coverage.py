#!/usr/bin/env python3
"""Development: run checks with MC_COVER set and list the lines and branches of the package no check executed.

coverage.py DIR [ID...]   run the checks (all if none is named), reports go to DIR/<ID>
coverage.py --show DIR    show what is missing
"""
import ast
import os
import subprocess as sp
import sys
from collections import defaultdict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/'


def executable(path):
    code = compile(open(path).read(), path, 'exec')
    out = set()

    def walk(c):
        out.update(n for _, _, n in c.co_lines() if n)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                walk(k)
    walk(code)
    doc = set()
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.update(range(n.lineno, n.end_lineno + 1))
    return out - doc


def show(d):
    lines, branches = defaultdict(set), defaultdict(lambda: defaultdict(set))
    for root, _, names in os.walk(d):
        for n in names:
            for l in open(os.path.join(root, n)):
                f = l.split()
                if f[0] == 'L':
                    lines[f[1]].add(int(f[2]))
                else:
                    branches[f[1]][f[2], f[3]].add((f[4], f[5]))
    for root, _, names in os.walk(SRC + 'eventio'):
        for n in sorted(names):
            if not n.endswith('.py'):
                continue
            rel = os.path.join(root, n)[len(SRC):]
            text = open(SRC + rel).read().split('\n')
            miss = sorted(executable(SRC + rel) - lines[rel])
            one = sorted((int(k[0]), next(iter(v))[0]) for k, v in branches[rel].items() if len(v) < 2 and k[0] != 'None')
            print('== {}: {} lines not executed, {} one-sided branches'.format(rel, len(miss), len(one)))
            for i in miss:
                if i > 0:
                    print('   - {:4d} {}'.format(i, text[i - 1]))
            for i, to in one:
                print('   ? {:4d} {}   always -> {}'.format(i, text[i - 1].strip(), to))


if sys.argv[1] == '--show':
    show(sys.argv[2])
else:
    d, ids = sys.argv[1], sys.argv[2:] or ['C%02d' % i for i in range(1, 37)]
    for i in ids:
        os.makedirs(os.path.join(d, i), exist_ok=True)
        r = sp.run([sys.executable, os.path.join(HERE, 'check.py'), i], env=dict(os.environ, MC_COVER=os.path.join(d, i)), stdout=sp.DEVNULL)
        print(i, r.returncode, flush=True)
