#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py <ID> [--tier quick|thorough] [--replay FILE] [--repo DIR]

Copies the package sources of /repo's working tree to a scratch directory, builds
the Cython extensions there, runs the check (mc.main) with the project's
interpreter on that copy, and removes the scratch directory again.

exit 0: the property held on everything explored
exit 1: "VIOLATION property=<ID> replay=<file>" was printed
exit 2: the check could not do its work (the package does not build or import, or a bug of the harness)
"""
import argparse
import os
import shutil
import signal
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
# checks that inject faults into the reads of a file
PRELOAD = {'C39'}
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def run(cmd, **kw):
    r = sp.run(cmd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError('{} failed:\n{}'.format(' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(repo, scratch):
    """Copy <repo>/src/eventio to scratch/src and compile all extensions there."""
    src = os.path.join(scratch, 'src')
    pkg = os.path.join(src, 'eventio')
    shutil.copytree(
        os.path.join(repo, 'src', 'eventio'), pkg,
        ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.c', '*.pyc', '_dev_version'),
    )
    version = os.path.join(pkg, '_version.py')
    if not os.path.exists(version):
        with open(version, 'w') as f:
            f.write("__version__ = version = '0.0.0'\n")

    info = run([PYTHON, '-c', (
        'import sysconfig, numpy;'
        'print(sysconfig.get_path("include"));'
        'print(numpy.get_include());'
        'print(sysconfig.get_config_var("EXT_SUFFIX"))'
    )]).split('\n')
    py_include, np_include, suffix = info[:3]

    def compile_one(pyx):
        base = pyx[:-4]
        run([PYTHON, '-m', 'cython', '-3', pyx, '-o', base + '.c'], cwd=src)
        run([
            'gcc', '-O1', '-w', '-shared', '-fPIC', '-fwrapv', '-fno-strict-aliasing',
            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
            '-DNPY_TARGET_VERSION=NPY_1_21_API_VERSION',
            '-I' + py_include, '-I' + np_include,
            base + '.c', '-o', base + suffix,
        ])
        os.remove(base + '.c')

    pyx = []
    for root, _, names in os.walk(pkg):
        pyx.extend(os.path.join(root, n) for n in sorted(names) if n.endswith('.pyx'))
    with ThreadPoolExecutor(4) as pool:
        list(pool.map(compile_one, sorted(pyx)))
    return src


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--selftest', action='store_true', help='build once and import, run no check')
    p.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--replay')
    p.add_argument('--repo', default='/repo')
    p.add_argument('--part', help='development: run only this part')
    p.add_argument('--src', help='development: use this already built source tree')
    args = p.parse_args()

    if not args.property and not args.selftest:
        p.error('which property?')

    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    scratch = tempfile.mkdtemp(prefix='eventio-mc-')
    try:
        try:
            src = args.src or build(args.repo, scratch)
        except Exception as e:
            print('cannot build the package: {}'.format(e), file=sys.stderr)
            return 2

        work = os.path.join(scratch, 'work')
        os.mkdir(work)
        env = dict(
            PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
            HOME=work, TMPDIR=work, LANG='C.UTF-8', TZ='UTC',
            PYTHONPATH=src + os.pathsep + HERE,
            PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
            VERIF_SEED=os.environ.get('VERIF_SEED') or '1',
            MC_SRC=src, MC_WORK=work, MC_REPO=args.repo,
            # evidence and replays are only kept for the real tree
            MC_HOME=HERE if os.path.realpath(args.repo) == '/repo' and not args.src else scratch,
        )
        if args.property and args.property.upper() in PRELOAD:
            so = os.path.join(scratch, 'faults.so')
            run(['gcc', '-O2', '-w', '-shared', '-fPIC', os.path.join(HERE, 'mc', 'faults.c'), '-o', so, '-ldl'])
            env['LD_PRELOAD'] = so
        if os.environ.get('MC_COVER'):
            env['MC_COVER'] = os.environ['MC_COVER']
        cmd = [PYTHON, '-m', 'mc.main', args.property or '', '--tier', args.tier]
        if args.selftest:
            cmd = [PYTHON, '-c', 'import eventio, mc.engine, mc.evio; print(eventio.__file__)']
        if args.replay:
            cmd += ['--replay', os.path.abspath(args.replay)]
        if args.part:
            cmd += ['--part', args.part]
        child = sp.Popen(cmd, cwd=work, env=env, stdin=sp.DEVNULL, start_new_session=True)
        try:
            rc = child.wait()
        except BaseException:
            os.killpg(child.pid, signal.SIGKILL)
            child.wait()
            raise
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
