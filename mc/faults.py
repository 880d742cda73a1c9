"""Interface to faults.c, which check.py preloads for checks that ask for it."""
import ctypes
import os

from .engine import HarnessError

EIO, ONE, HALF, OPEN = 1, 2, 3, 4
NAMES = None, 'EIO', 'one byte', 'half', 'open fails'
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.mcf_watch.argtypes = [ctypes.c_char_p]
        except AttributeError:
            raise HarnessError('faults.c is not preloaded')
        # does it work?
        with open('probe', 'wb') as f:
            f.write(bytes(10))
        watch('probe', [(1, EIO), (2, ONE)])
        got = []
        fd = os.open('probe', os.O_RDONLY)
        for _ in range(4):
            try:
                got.append(len(os.read(fd, 4)))
            except OSError as e:
                got.append(-e.errno)
        os.close(fd)
        off()
        watch('probe', [(1, OPEN)])
        open('probe').close()
        try:
            open('probe').close()
            got = 'open'
        except OSError:
            pass
        off()
        if got != [4, -5, 1, 4]:
            raise HarnessError('faults.c does not work: {}'.format(got))
    return _lib


def watch(path, plan=()):
    """plan: (number of the read of this file, action)"""
    if lib().mcf_watch(os.fsencode(path)):
        raise HarnessError('cannot watch {}'.format(path))
    for k, a in plan:
        _lib.mcf_plan_open(k) if a == OPEN else _lib.mcf_plan(k, a)


def off():
    """number of reads, of opens and of errors since watch()"""
    r = _lib.mcf_reads(), _lib.mcf_opens(), _lib.mcf_failed()
    _lib.mcf_watch(None)
    return r


def failed():
    return _lib.mcf_failed()
