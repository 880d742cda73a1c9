#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of /repo and store the good ones in /verif/seeded.

    plant.py FILE...       each FILE is python source that defines
        ID, PROPERTY, EDITS = [(path, old, new), ...], NEEDS, BREAKS, DEMO (source of demo.py)
    plant.py --detect [ID...]   run the checks against the stored bugs in a scratch copy

Keeps a bug only if it changes lines of the original repository, the stable tests pass
with it, and the demonstration passes without it and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
BASE = '32701ab'
WORK = '/tmp/plant'
SCRATCH = WORK + '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs(WORK, exist_ok=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sh('cp -a /repo ' + SCRATCH)
    build()


def build():
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0')
    r = sh('touch src/eventio/*.pyx && {} setup.py build_ext --inplace'.format(PY), cwd=SCRATCH, env=env)
    return r.returncode == 0, r.stdout


def tests():
    env = dict(os.environ, PYTHONPATH=SCRATCH + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
               PATH='/opt/venv/bin:' + os.environ['PATH'])
    sh('{} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 '
       '--junitxml={}/junit.xml'.format(PY, WORK), cwd=SCRATCH, env=env)
    passed = set()
    for c in ET.parse(WORK + '/junit.xml').iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            passed.add('{}::{}'.format(c.get('classname'), c.get('name')))
    with open('/opt/vp/BASELINE.json') as f:
        return sorted(set(json.load(f)['stable']) - passed)


def demo(d):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    r = sh('bash {}/demo.sh'.format(d), cwd=SCRATCH, env=env, timeout=300)
    return r.returncode, r.stdout


def base_lines(paths):
    """removed or neighbouring lines must be of the original repository"""
    bad = []
    diff = sh('git diff -U0', cwd=SCRATCH).stdout
    path = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            old = line.split()[1][1:]
            start, n = (old.split(',') + ['1'])[:2]
            for k in range(int(start), int(start) + int(n)):
                b = sh('git blame -l -s -L {0},{0} HEAD -- {1}'.format(k, path), cwd=SCRATCH).stdout
                if sh('git merge-base --is-ancestor {} {}'.format(b.split()[0].lstrip('^'), BASE), cwd=SCRATCH).returncode:
                    bad.append(b.strip())
    return bad


def clean():
    sh('git checkout -q -- .', cwd=SCRATCH)


def plant(path):
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    ident = ns['ID']
    d = os.path.join(WORK, 'new', ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(os.path.join(HERE, 'planting', 'ev.py'), d)
    with open(d + '/demo.py', 'w') as f:
        f.write(ns['DEMO'].lstrip())
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    clean()
    rc, out = demo(d)
    if rc:
        return '{}: demo fails on the unchanged tree:\n{}'.format(ident, out[-1500:])
    for p, old, new in ns['EDITS']:
        full = os.path.join(SCRATCH, p)
        s = open(full).read()
        if s.count(old) != 1:
            return '{}: {} occurrences of {!r}'.format(ident, s.count(old), old)
        open(full, 'w').write(s.replace(old, new))
    pyx = any(p.endswith('.pyx') for p, _, _ in ns['EDITS'])
    try:
        bad = base_lines(None)
        if bad:
            return '{}: changes lines of own commits: {}'.format(ident, bad)
        if pyx:
            ok, out = build()
            if not ok:
                return '{}: does not build: {}'.format(ident, out[-800:])
        missing = tests()
        if missing:
            return '{}: tests fail: {}'.format(ident, missing[:6])
        rc, out = demo(d)
        if rc == 0:
            return '{}: demo passes with the bug:\n{}'.format(ident, out[-500:])
        with open(d + '/patch.diff', 'w') as f:
            f.write(sh('git diff', cwd=SCRATCH).stdout)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, f, indent=1)
        final = os.path.join(VERIF, 'seeded', ident)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(d, final)
        last = [x for x in out.strip().splitlines() if x.strip()][-1:]
        return '{}: ok   {}'.format(ident, last) + '\n   ' + detect(ns['PROPERTY'])
    finally:
        clean()
        if pyx:
            build()


def detect(prop):
    if not os.path.exists('{}/mc/checks/{}.py'.format(VERIF, prop.lower())):
        return '(no check {} yet)'.format(prop)
    r = sh('timeout 900 python3 {}/check.py {} --repo {}'.format(VERIF, prop, SCRATCH))
    if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout:
        line = [x for x in r.stdout.splitlines() if not x.startswith('VIOLATION')][-1]
        return 'CAUGHT by {}: {}'.format(prop, line[:300])
    return 'MISSED by {} (rc {})\n{}'.format(prop, r.returncode, r.stdout[-600:])


def main():
    args = sys.argv[1:]
    fresh()
    if args and args[0] == '--detect':
        seeded = os.path.join(VERIF, 'seeded')
        for ident in args[1:] or sorted(os.listdir(seeded)):
            d = os.path.join(seeded, ident)
            if not os.path.isdir(d):
                continue
            prop = json.load(open(d + '/meta.json'))['property']
            clean()
            r = sh('git apply {}/patch.diff'.format(d), cwd=SCRATCH)
            if r.returncode:
                print(ident, 'does not apply', r.stdout)
                continue
            build()
            print(ident, prop, detect(prop), flush=True)
            clean()
            build()
    else:
        for p in args:
            print(plant(p), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
