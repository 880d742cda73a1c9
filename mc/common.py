"""Helpers of the checks: comparison with the model, opening files, quiet runs."""
import contextlib
import hashlib
import io
import math
import os
import struct
import sys
import warnings

import numpy as np

from .engine import Violation, HarnessError


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Rec(dict):
    """expected structured array, given by its columns"""


class AnyOf:
    """any of several results is right"""

    def __init__(self, *options):
        self.options = options

    def __repr__(self):
        return 'AnyOf{!r}'.format(self.options)


class Anything:
    def __repr__(self):
        return 'Anything'


ANY = Anything()


class Arr:
    """expected array given by shape and flat values (python numbers)"""
    __slots__ = ('a',)

    def __init__(self, values, shape=None, dtype=None):
        self.a = np.array(values, dtype=dtype)
        if shape is not None:
            self.a = self.a.reshape(shape)

    def __repr__(self):
        return 'Arr({!r})'.format(self.a)


class Near(Arr):
    """as Arr, for values that may be rounded in different ways"""
    __slots__ = ('rtol',)

    def __init__(self, values, shape=None, dtype=None, rtol=2e-6):
        Arr.__init__(self, values, shape, dtype)
        self.rtol = rtol


def _float_same(a, e):
    if math.isnan(a) or math.isnan(e):
        return math.isnan(a) and math.isnan(e)
    return a == e and math.copysign(1, a) == math.copysign(1, e)


def _array_same(a, e, path):
    """a, e: ndarrays"""
    if a.shape != e.shape:
        return '{}: shape {} instead of {}'.format(path, a.shape, e.shape)
    if a.size == 0:
        return None
    if a.dtype.kind in 'biuf' and e.dtype.kind in 'biuf':
        if e.dtype.kind == 'f' or a.dtype.kind == 'f':
            ok = (a == e) | ((a != a) & (e != e))
            if e.dtype.kind == 'f' and a.dtype.kind == 'f':
                ok &= (np.signbit(a) == np.signbit(e)) | (a != a)
        else:
            ok = a == e
            # uint64 against int64 compares in float64
            if (a.dtype == np.uint64) != (e.dtype == np.uint64):
                ok = np.array([int(x) == int(y) for x, y in zip(a.ravel(), e.ravel())]).reshape(a.shape)
        if not np.all(ok):
            i = tuple(int(x[0]) for x in np.nonzero(~np.atleast_1d(ok)))
            av, ev = np.atleast_1d(a)[i], np.atleast_1d(e)[i]
            return '{}{}: {!r} instead of {!r}'.format(path, list(i), av, ev)
        return None
    if a.tolist() != e.tolist():
        return '{}: {!r} instead of {!r}'.format(path, a, e)
    return None


def differ(a, e, path=''):
    """None if the result `a` is what the model expects (`e`), else where it differs"""
    if e is ANY:
        return None
    if isinstance(e, AnyOf):
        msgs = [differ(a, o, path) for o in e.options]
        return None if any(m is None for m in msgs) else msgs[0]
    if isinstance(e, Near):
        if a is None:
            return '{}: None instead of an array'.format(path)
        a, e, rtol = np.asarray(a), e.a, e.rtol
        if a.shape == e.shape and a.size and a.dtype.kind == 'f':
            a = np.where(np.abs(a.astype('f8') - e) <= np.abs(e) * rtol, e, a)
        return _array_same(a, e, path)
    if isinstance(e, Arr):
        e = e.a
        if a is None:
            return '{}: None instead of an array'.format(path)
        return _array_same(np.asarray(a), e, path)
    if isinstance(e, Rec):
        a = np.asarray(a)
        if a.dtype.names is None:
            return '{}: not a structured array: {!r}'.format(path, a.dtype)
        if set(a.dtype.names) != set(e):
            return '{}: columns {} instead of {}'.format(path, list(a.dtype.names), list(e))
        for k in e:
            m = differ(a[k], e[k], '{}[{!r}]'.format(path, k))
            if m:
                return m
        return None
    if isinstance(e, dict):
        if isinstance(a, np.void) and a.dtype.names:
            a = {k: a[k] for k in a.dtype.names}
        if not hasattr(a, 'keys'):
            return '{}: {!r} instead of a dict'.format(path, type(a))
        ka, ke = set(a.keys()), set(e.keys())
        if ka != ke:
            return '{}: missing {} unexpected {}'.format(
                path, sorted(map(repr, ke - ka)), sorted(map(repr, ka - ke)))
        for k in e:
            m = differ(a[k], e[k], '{}[{!r}]'.format(path, k))
            if m:
                return m
        return None
    if isinstance(e, np.ndarray):
        if a is None:
            return '{}: None instead of an array'.format(path)
        if e.dtype.names:
            return differ(a, Rec({k: e[k] for k in e.dtype.names}), path)
        return _array_same(np.asarray(a), e, path)
    if isinstance(e, (list, tuple)):
        if a is None or isinstance(a, (bytes, str, dict)):
            return '{}: {!r} instead of a sequence'.format(path, a)
        if len(a) != len(e):
            return '{}: length {} instead of {}'.format(path, len(a), len(e))
        for i, (x, y) in enumerate(zip(a, e)):
            m = differ(x, y, '{}[{}]'.format(path, i))
            if m:
                return m
        return None
    if isinstance(e, (bytes, bytearray)):
        if not isinstance(a, (bytes, bytearray, np.bytes_)) or bytes(a) != bytes(e):
            return '{}: {!r} instead of {!r}'.format(path, a, e)
        return None
    if isinstance(e, str):
        if not isinstance(a, str) or a != e:
            return '{}: {!r} instead of {!r}'.format(path, a, e)
        return None
    if e is None:
        return None if a is None else '{}: {!r} instead of None'.format(path, a)
    if isinstance(e, (bool, np.bool_)):
        try:
            return None if bool(a) == bool(e) and a in (0, 1) else '{}: {!r} instead of {!r}'.format(path, a, e)
        except Exception:
            return '{}: {!r} instead of {!r}'.format(path, a, e)
    if isinstance(e, (int, np.integer)):
        try:
            ok = np.ndim(a) == 0 and not isinstance(a, (str, bytes)) and a == e and int(a) == int(e)
        except Exception:
            ok = False
        return None if ok else '{}: {!r} instead of {!r}'.format(path, a, e)
    if isinstance(e, (float, np.floating)):
        try:
            ok = np.ndim(a) == 0 and _float_same(float(a), float(e))
        except Exception:
            ok = False
        return None if ok else '{}: {!r} instead of {!r}'.format(path, a, e)
    raise HarnessError('cannot compare with {!r}'.format(type(e)))


def same(a, e):
    """quick test: True only if differ(a, e) is None, False means: not decided"""
    t = type(e)
    if t is int:
        return type(a) is int and a == e
    if t is float:
        return (type(a) is float or type(a) is np.float32) and a == e and e != 0
    if t is dict:
        if type(a) is np.void or not hasattr(a, 'keys') or len(a) != len(e):
            return False
        for k, v in e.items():
            try:
                if k not in a or not same(a[k], v):
                    return False
            except Exception:
                return False
        return True
    if t is list or t is tuple:
        if not isinstance(a, (list, tuple)) or len(a) != len(e):
            return False
        return all(map(same, a, e))
    if t is Arr or t is np.ndarray:
        x = e.a if t is Arr else e
        return type(a) is np.ndarray and a.dtype == x.dtype and a.shape == x.shape and not a.dtype.hasobject \
            and a.tobytes() == x.tobytes()
    if t is Rec:
        if type(a) is not np.ndarray or a.dtype.names is None or set(a.dtype.names) != set(e):
            return False
        return all(same(a[k], v) for k, v in e.items())
    if t is bytes or t is str:
        return type(a) is t and a == e
    return e is None and a is None


def check_same(a, e, what):
    if same(a, e):
        return
    m = differ(a, e)
    if m:
        fail('{}: {}', what, m)


def freeze(x):
    """a deep, independent, comparable copy of a result"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return Rec({k: np.array(x[k]) for k in x.dtype.names})
        return np.array(x)
    if isinstance(x, np.void):
        if x.dtype.names:
            return {k: freeze(x[k]) for k in x.dtype.names}
        return bytes(x)
    if isinstance(x, dict) or hasattr(x, 'keys'):
        return {k: freeze(x[k]) for k in list(x.keys())}
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.longdouble) else x
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if hasattr(x, 'typecode') and hasattr(x, 'tolist'):     # array.array
        return list(x)
    return x


def canon(x):
    """a result as plain values that compare bit by bit"""
    if isinstance(x, np.ndarray) and x.nbytes > 1 << 20 and not x.dtype.hasobject:
        return ('array', str(x.dtype), x.shape, hashlib.blake2b(np.ascontiguousarray(x)).hexdigest())
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str if not x.dtype.names else str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return ('scalar', x.dtype.str, x.tobytes())
    if isinstance(x, dict) or hasattr(x, 'keys'):
        return {canon(k): canon(x[k]) for k in list(x.keys())}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, float):
        return ('float', x.hex())
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if hasattr(x, 'typecode') and hasattr(x, 'tolist'):
        return list(x)
    return x


@contextlib.contextmanager
def caught():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield w


def check_header(o, m, what='object'):
    """o: delivered object, m: evio.Obj"""
    from .evio import class_name
    h = o.header
    got = (h.type, h.version, h.id, bool(h.user), bool(h.extended), bool(h.only_subobjects),
           h.content_size, h.content_address, o.address, o.size)
    exp = (m.type, m.version, m.id, bool(m.user), bool(m.ext), m.sub, m.size, m.address, m.address, m.size)
    if got != exp:
        fail('{}: (type, version, id, user, extended, only_subobjects, size, address, address, size) is {} instead of {}',
             what, got, exp)
    if type(o).__name__ != class_name(m.type):
        fail('{}: type {} delivered as {} instead of {}', what, m.type, type(o).__name__, class_name(m.type))


_files = {}


def stored(data, variant, name=None):
    """path and keyword arguments of a file with this content, written once per process"""
    from . import evio
    key = (data, variant)
    hit = _files.get(key)
    if hit is None:
        path = name or 'file%d.dat' % len(_files)
        hit = _files[key] = (path, evio.store(path, data, variant))
        if len(_files) > 20000:
            raise HarnessError('too many files')
    return hit


def spoil(x):
    """what the caller may do to results"""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            for y in x.ravel():
                spoil(y)
        elif x.flags.writeable and x.size:
            x.view(np.uint8 if x.flags.c_contiguous and x.ndim else x.dtype)[...] = 77 if not x.dtype.names or x.flags.c_contiguous else x
    elif isinstance(x, dict) or hasattr(x, 'keys') and not isinstance(x, np.void):
        for k in list(x.keys()):
            spoil(x[k])
        if isinstance(x, dict):
            x.clear()
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.append('spoiled')
