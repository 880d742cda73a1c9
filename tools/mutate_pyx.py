#!/usr/bin/env python3
"""Mutation testing of the compiled modules (development only; see mutate.py).

mutate_pyx.py DIR WORKERS LIMIT_S     -> DIR/pyx.jsonl: {file, line, old, new, state: no build | tests | killed by | SURVIVED}
"""
import json
import os
import re
import shutil
import subprocess as sp
import sys
import time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {'header.pyx': ['C01', 'C03', 'C37'], 'var_int.pyx': ['C12', 'C11', 'C22', 'C19', 'C13', 'C37'], 'simtel/parsing.pyx': ['C19', 'C37', 'C13']}
RULES = [(r'(?<![<>=!])<(?![<=\w])', ['<=', '>']), (r'<=', ['<']), (r'(?<![>\w])>(?![>=])', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
         (r'<<', ['>>']), (r'>>', ['<<']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
         (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r' \* ', [' + ']), (r' and ', [' or ']), (r' or ', [' and ']), (r'\bnot ', ['']),
         (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']), (r'\bint32_t\b', ['int16_t', 'uint32_t']), (r'\buint32_t\b', ['uint16_t', 'int32_t']),
         (r'\bint16_t\b', ['uint16_t']), (r'\buint64_t\b', ['uint32_t', 'int64_t']), (r'\bint64_t\b', ['int32_t']), (r'\buint8_t\b', ['int8_t']),
         (r'\braise \w+', ['None and ']), (r'\bbreak\b', ['pass']), (r'\bcontinue\b', ['pass'])]


def mutants():
    for f in FILES:
        doc = False
        for n, line in enumerate(open('/repo/src/eventio/' + f), 1):
            s = line.strip()
            if s.count("'''") == 1 or s.count('"""') == 1:
                doc = not doc
                continue
            if doc or not s or s[0] in '#@"\'' or s.startswith(('from', 'import', 'cimport')):
                continue
            code = line.split('#')[0]
            for rule, news in RULES:
                for m in re.finditer(rule, code):
                    for new in news:
                        if new == '=' and m.group() != '+=':
                            continue
                        yield f, n, m.start(), m.end(), new
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-f]+|\d+)(?![\w.])', code):
                v = int(m.group(), 0)
                for new in ([v + 1, v - 1] if v else [1]):
                    yield f, n, m.start(), m.end(), hex(new) if m.group().startswith('0x') else str(new)


def main():
    d, workers, limit = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, 'pyx.jsonl')
    done = {tuple(r['key']) for r in map(json.loads, open(log))} if os.path.exists(log) else set()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = Queue()
    for i in range(workers):
        w = os.path.join(d, 'pyxrepo%d' % i)
        shutil.rmtree(w, ignore_errors=True)
        sp.run(['cp', '-a', '/repo', w], check=True)
        q.put(w)
    out = open(log, 'a')
    t0 = time.time()
    todo = [m for m in mutants() if m not in done]
    todo = [m for k in range(5) for m in todo[k::5]]
    print(len(todo), 'mutants')

    def one(m):
        f, n, a, b, new = m
        if time.time() - t0 > limit:
            return
        w = q.get()
        try:
            p = os.path.join(w, 'src/eventio', f)
            lines = open('/repo/src/eventio/' + f).readlines()
            old = lines[n - 1]
            lines[n - 1] = old[:a] + new + old[b:]
            open(p, 'w').writelines(lines)
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0', PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                       PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
            state = None
            if sp.run([PY, 'setup.py', 'build_ext', '--inplace'], cwd=w, env=env, stdout=sp.DEVNULL, stderr=sp.DEVNULL).returncode:
                state = 'no build'
            if state is None:
                x = w + '/junit.xml'
                passed = set()
                try:
                    if os.path.exists(x):
                        os.remove(x)
                    sp.run(['timeout', '-s', 'KILL', '60', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=30',
                            '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd=w, env=env, stdout=sp.DEVNULL,
                           stderr=sp.DEVNULL)
                    for c in ET.parse(x).iter('testcase'):
                        if not any(y.tag in ('failure', 'error', 'skipped') for y in c):
                            passed.add('{}::{}'.format(c.get('classname'), c.get('name')))
                except Exception:
                    pass
                if stable - passed:
                    state = 'tests'
            if state is None:
                for c in FILES[f]:
                    r = sp.run(['timeout', '-s', 'KILL', '800', sys.executable, HERE + '/check.py', c, '--repo', w], stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
                    if r.returncode:
                        state = 'killed by ' + c if r.returncode == 1 else 'ERROR {} {}'.format(c, r.returncode)
                        break
            out.write(json.dumps({'key': m, 'old': old.strip(), 'new': lines[n - 1].strip(), 'state': state or 'SURVIVED'}) + '\n')
            out.flush()
        finally:
            shutil.copyfile('/repo/src/eventio/' + f, os.path.join(w, 'src/eventio', f))
            q.put(w)

    with ThreadPoolExecutor(workers) as pool:
        list(pool.map(one, todo))
    for i in range(workers):
        shutil.rmtree(os.path.join(d, 'pyxrepo%d' % i))


main()
