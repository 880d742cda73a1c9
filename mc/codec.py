"""Declarative reference layouts of object payloads, usable in both directions.

A layout is a function `spec(k)` that describes a payload field by field through the
methods of `k` and returns the expected parse result.  With a `Writer`, the values are
chosen by the explorer and encoded (this is how files are generated); with a `Reader`,
the values are decoded from the bytes of an existing file (this is how the layouts are
validated against real data).  Nothing of the package under test is used.
"""
import struct

import numpy as np

from . import evio
from .common import Arr

SIZE = {'i1': 1, 'u1': 1, 'i2': 2, 'u2': 2, 'i4': 4, 'u4': 4, 'f2': 2, 'f4': 4, 'f8': 8, '?': 1}
CODE = {'i1': 'b', 'u1': 'B', 'i2': 'h', 'u2': 'H', 'i4': 'i', 'u4': 'I', 'f2': 'e', 'f4': 'f', 'f8': 'd', '?': '?'}


def f4(x):
    return float(np.float32(x))


ALTS = {
    'i1': [0, -1, -128, 127],
    'u1': [0, 255, 128],
    'i2': [0, -1, -32768, 32767, 256],
    'u2': [0, 65535, 32768, 255],
    'i4': [0, -1, -2147483648, 2147483647, 65536],
    'u4': [0, 4294967295, 2147483648],
    'f2': [0.0, -0.0, float('inf'), 65504.0, float(np.float16(6e-8))],
    'f4': [0.0, -0.0, float('inf'), float('nan'), f4(1e-45), -3.4028234663852886e+38],
    'f8': [0.0, -0.0, float('-inf'), float('nan'), 5e-324, 1.7976931348623157e+308],
    'vs': [0, -1, 63, -64, 64, -65, 8191, 8192, -1048576, 1048576, (1 << 31) - 1, -(1 << 31)],
    'vs16': [0, -1, 63, -64, 64, -65, 8191, -8192, 32767, -32768],
    'vs64': [0, -1, 63, -64, 64, -65, 8191, 8192, -1048576, 1048576, (1 << 31) - 1, -(1 << 31),
             (1 << 34), (1 << 41), -(1 << 48), (1 << 55) - 1, (1 << 63) - 1, -(1 << 63)],
    'vu': [0, 1, 127, 128, 16383, 16384, (1 << 21), (1 << 28), (1 << 32) - 1],
    '?': [0],
}


# large counts, and the fields with a set of values that are none
LARGE = (256, 4097, 32767, 70000)
MORE = (127, 128, 1000, 8191, 16384, 33000, 65536, 140000)
MAX = {'i1': 127, 'u1': 255, 'i2': 32767, 'u2': 65535, 'vs16': 32767}
NO_COUNT = ('length word', 'layers', 'common', 'shapes', 'source and flags', 'mask', 'list type', 'granularity', 'before', 'after',
            'threshold', 'types', 'tentries', 'listed', 'kind', 'n_gains')


class Skip(Exception):
    """this object is not described by the layout"""


class Writer:
    reading = False

    def __init__(self, c, type_, max_values=99, large=False):
        self.c = c
        self.large = large               # counts much larger than usual
        self.max_values = max_values     # fields with another than their default value
        self.type = type_
        self.b = bytearray()
        self.tag = 0
        self.version_ = 0
        self.ident_ = 0
        self.names = {}

    # -- header
    def version(self, options):
        self.version_ = self.c.choose('version', list(options), free=True)
        return self.version_

    def ident(self, options, free=False):
        """the whole id field"""
        self.ident_ = self.c.choose('id', list(options), free)
        return self.ident_

    def idbits(self, name, shifts, options, free=False):
        """a value stored in bit groups of the id: shifts = [(bit in value, width, bit in id), ...]"""
        v = self.c.choose(name, list(options), free)
        u = self.ident_ & 0xffffffff
        for src, width, dst in shifts:
            u |= (v >> src & (1 << width) - 1) << dst
        self.ident_ = u - (1 << 32) if u >> 31 else u
        return v

    # -- scalars
    def value(self, name, n):
        """choice between the default and alternate values of a field without influence on the layout"""
        if self.max_values <= 0:
            return 0
        k = self.c.choose(name, n)
        self.max_values -= k > 0
        return k

    def _default(self, fmt):
        self.tag += 1
        t = self.tag
        if fmt in ('i1', 'u1'):
            return (t * 7 + 3) % 120
        if fmt in ('i2', 'u2', 'vs16'):
            return (t * 301 + 77) % 32000
        if fmt in ('i4', 'u4', 'vs', 'vs64', 'vu'):
            return t * 100003 % 2000000011
        if fmt == '?':
            return 1
        if fmt == 'f2':
            return (t * 3 + 1) % 500 + 0.5
        v = t * 10 + 0.25 + (t % 3) / 8
        return f4(v) if fmt == 'f4' else v

    def put(self, fmt, v):
        if fmt in ('vs', 'vs16', 'vs64'):
            self.b += evio.vs(v)
        elif fmt == 'vu':
            self.b += evio.vu(v)
        else:
            self.b += struct.pack('<' + CODE[fmt], v)

    def num(self, name, fmt, n=None, free=False, alts=None, top=1 << 32):
        if n is not None:
            n = list(n)
            if self.large and name not in NO_COUNT and len(n) > 1:
                n, free = [n[0]] + [x for x in LARGE + MORE * (self.large > 1) if x <= min(top, MAX.get(fmt, x))], False
            v = self.c.choose(name, n, free)
        else:
            d = self._default(fmt)
            a = ALTS[fmt] if alts is None else alts
            i = self.value(name, 1 + len(a))
            v = a[i - 1] if i else d
        self.put(fmt, v)
        return v

    def const(self, fmt, v):
        self.put(fmt, v)
        return v

    def time(self, name):
        return [self.num(name + ' s', 'i4'), self.num(name + ' ns', 'i4')]

    def _block(self, name, fmt, n, alts=None):
        """n values: default ramp, or all / first / last / odd at a boundary value"""
        if n == 0:
            return []
        self.tag += 1
        t = self.tag
        if fmt in ('i1', 'u1'):
            d = [(i * 5 + t * 7) % 120 for i in range(n)]
        elif fmt in ('i2', 'u2', 'vs16'):
            d = [(i * 37 + t * 301) % 32000 for i in range(n)]
        elif fmt in ('i4', 'u4', 'vs', 'vs64', 'vu'):
            d = [(i * 3001 + t * 100003) % 2000000011 for i in range(n)]
        elif fmt == '?':
            d = [(i + t) % 3 == 0 for i in range(n)]
        elif fmt == 'f2':
            d = [(i * 3 + t) % 500 + 0.5 for i in range(n)]
        else:
            d = [t * 1000 + i + 0.25 + (t % 3) / 8 for i in range(n)]
        a = ALTS[fmt] if alts is None else alts
        i = self.value(name, 1 + 3 * len(a) if n > 1 else 1 + len(a))
        if i:
            x = a[(i - 1) % len(a)]
            k = (i - 1) // len(a)
            if k == 0:
                d[-1] = x
            elif k == 1:
                d[0] = x
            else:
                d[::2] = [x] * len(d[::2])
        return d

    def arr(self, name, fmt, *shape, alts=None):
        n = int(np.prod(shape)) if shape else 1
        d = self._block(name, fmt, n, alts)
        if fmt in ('vs', 'vs16', 'vs64', 'vu'):
            enc = evio.vu if fmt == 'vu' else evio.vs
            self.b += b''.join(enc(v) for v in d)
            return Arr(d, shape, dtype='u8' if fmt == 'vu' else 'i8')
        self.b += struct.pack('<%d%s' % (n, CODE[fmt]), *d)
        return Arr(np.array(d, dtype='<' + fmt if fmt != '?' else '?'), shape)

    def darr(self, name, n_arrays, n_elements, limit=1 << 32):
        """arrays stored as differences"""
        n = n_arrays * n_elements
        if n == 0:
            return Arr(np.zeros((n_arrays, n_elements), 'u4'))
        self.tag += 1
        t = self.tag
        d = [(300 + i * i % 41 + t) for i in range(n)]
        alts = ['max last', 'max first', 'zero and max', 'steps', 'zeros', 'middle']
        k = (['default'] + alts)[self.value(name, 1 + len(alts))]
        m = limit - 1
        if k == 'max last':
            d[-1] = m
        elif k == 'max first':
            d[0] = m
        elif k == 'zero and max':
            d = [m if i & 1 else 0 for i in range(n)]
        elif k == 'steps':
            d = [(1 << (3 * i % 32)) - (i & 1) for i in range(n)]
            d = [min(x, m) for x in d]
        elif k == 'zeros':
            d = [0] * n
        elif k == 'middle':
            d = [(limit >> 1) - (i & 1) for i in range(n)]
        for i in range(n_arrays):
            self.b += evio.diff(d[i * n_elements:(i + 1) * n_elements])
        return Arr(np.array(d, 'u4').reshape(n_arrays, n_elements))

    def values(self, name, fmt, values, shape=None):
        """values determined by structural choices (lists of pixels...)"""
        for v in values:
            self.put(fmt, v)
        return list(values)

    def pick(self, name, options, free=False):
        """a structural choice; the reader has to find it out from what follows"""
        return self.c.choose(name, options, free)

    # -- texts
    def _text(self, name, options):
        self.tag += 1
        o = [b'text%d' % self.tag] if options is None else []
        o += [b'', b'a', b'x' * 127, b'\xc3\xa4\n%\x00 ', b'y' * 300] if options is None else list(options)
        return o[self.value(name, len(o))]

    def text(self, name, options=None):
        t = self._text(name, options)
        self.b += struct.pack('<h', len(t)) + t
        return t

    def vtext(self, name, options=None):
        t = self._text(name, options)
        self.b += evio.vu(len(t)) + t
        return t

    def raw(self, b):
        self.b += b

    def pad(self, to=4):
        k = self.c.choose('padding', ['natural', 'none', 'more'])
        if k != 'none':
            self.b += bytes(-len(self.b) % to)
        if k == 'more':
            self.b += bytes(4)

    def rest(self, name, b):
        """more data, which the reader does not care about"""
        self.b += self.c.choose(name, [b, b''])

    def skip(self, why=''):
        raise AssertionError('not possible while writing: ' + why)

    def remaining(self):
        raise AssertionError


class Reader:
    reading = True

    def __init__(self, o):
        self.o = o
        self.type = o.type
        self.b = o.payload
        self.pos = 0
        self.version_ = o.version
        self.ident_ = o.id
        self.padded = False

    def version(self, options):
        if self.version_ not in options:
            raise Skip('version {}'.format(self.version_))
        return self.version_

    def ident(self, options, free=False):
        return self.ident_

    def idbits(self, name, shifts, options, free=False):
        u = self.ident_ & 0xffffffff
        v = 0
        for src, width, dst in shifts:
            v |= (u >> dst & (1 << width) - 1) << src
        return v

    def get(self, fmt):
        if fmt in ('vs', 'vs16', 'vs64'):
            v, n = evio.dec_vs(self.b, self.pos)
        elif fmt == 'vu':
            v, n = evio.dec_vu(self.b, self.pos)
        else:
            n = SIZE[fmt]
            v, = struct.unpack_from('<' + CODE[fmt], self.b, self.pos)
        self.pos += n
        return v

    def num(self, name, fmt, n=None, free=False, alts=None, top=0):
        return self.get(fmt)

    def const(self, fmt, v):
        x = self.get(fmt)
        if x != v:
            raise Skip('{} instead of {}'.format(x, v))
        return x

    def time(self, name):
        return [self.get('i4'), self.get('i4')]

    def arr(self, name, fmt, *shape, alts=None):
        n = int(np.prod(shape)) if shape else 1
        if not fmt.startswith('v'):
            self.pos += n * SIZE[fmt]
            return Arr(np.frombuffer(self.b, '<' + fmt if fmt != '?' else '?', n, self.pos - n * SIZE[fmt]), shape)
        d = [self.get(fmt) for _ in range(n)]
        if fmt.startswith('v'):
            return Arr(d, shape, dtype='u8' if fmt == 'vu' else 'i8')
        return Arr(np.array(d, dtype='<' + fmt if fmt != '?' else '?'), shape)

    def darr(self, name, n_arrays, n_elements, limit=1 << 32):
        out = []
        for _ in range(n_arrays):
            v, n = evio.dec_diff(self.b, self.pos, n_elements)
            self.pos += n
            out += v
        return Arr(np.array(out, 'u4').reshape(n_arrays, n_elements))

    def values(self, name, fmt, values, shape=None):
        raise Skip('list of structural values')

    def pick(self, name, options, free=False):
        raise Skip('structural choice')

    def text(self, name, options=None):
        n = self.get('i2')
        self.pos += n
        return bytes(self.b[self.pos - n:self.pos])

    def vtext(self, name, options=None):
        n = self.get('vu')
        self.pos += n
        return bytes(self.b[self.pos - n:self.pos])

    def raw(self, b):
        if bytes(self.b[self.pos:self.pos + len(b)]) != bytes(b):
            raise Skip('other constant')
        self.pos += len(b)

    def pad(self, to=4):
        self.padded = True

    def rest(self, name, b):
        self.pos = len(self.b)

    def skip(self, why=''):
        raise Skip(why)


def write(c, type_, spec, max_values=99, large=False):
    """(Obj, expected) for the choices of c"""
    w = Writer(c, type_, max_values, large)
    expected = spec(w)
    return evio.Obj(type_, bytes(w.b), version=w.version_, ident=w.ident_), expected


def read(o, spec):
    """expected result for a stored object (reference decoder)"""
    r = Reader(o)
    expected = spec(r)
    left = len(r.b) - r.pos
    if left < 0 or left > 7 or (left and any(r.b[r.pos:])):
        raise AssertionError('layout of {} leaves {} bytes'.format(o, left))
    return expected


# ------------------------------------------------------------------ the parts of a codec check
def gen_spec(specs, max_values=99, large=False):
    """specs: {name: (type, spec)}"""
    names = sorted(specs)

    def g(c):
        name = c.choose('block', names, free=True)
        type_, spec = specs[name]
        obj, expected = write(c, type_, spec, max_values, large)
        return name, obj, expected
    return g


def parse(o):
    return o.parse()


def make_run(parse=parse, special=None):
    """compare every block, directly and again after all others were parsed"""
    from .common import check_same, fail, need, caught, freeze

    def run(cases, ctx):
        from eventio import EventIOFile
        objs = [o for _, o, _ in cases]
        with open('blocks.dat', 'wb') as f:
            # half of the batch nested, half at top level
            half = objs[::2]
            tops = objs[1::2] + [evio.Obj(60009, half, ident=1)]
            f.write(evio.build(tops))
        order = cases[1::2] + cases[::2]
        with EventIOFile('blocks.dat') as f:
            delivered = []
            for m in objs[1::2]:
                delivered.append(next(f))
            delivered += list(next(f))
            if len(delivered) != len(order):
                fail('{} objects instead of {}', len(delivered), len(order))
            results = []
            for o, (name, m, expected) in zip(delivered, order):
                what = '{} version {} id {}, payload {}'.format(name, m.version, m.id, m.payload[:200].hex())
                if o.address != m.address:
                    fail('{}: at {} instead of {}', what, o.address, m.address)
                if isinstance(expected, Raises):
                    try:
                        r = parse(o)
                    except expected.kinds as e:
                        r = None
                    else:
                        fail('{}: gives {!r:.300} instead of {}', what, r, expected)
                else:
                    try:
                        r = parse(o)
                    except Exception as e:
                        fail('{}: {!r} instead of {!r:.500}', what, e, expected)
                    check_same(r, expected, what)
                    if special:
                        special(o, m, expected, what)
                ctx.step()
                ctx.state(name, m.version, m.id, m.payload)
                ctx.outcome(name, len(m.payload))
                results.append(r)
            for k, ((name, m, expected), r) in enumerate(zip(order, results)):
                if not isinstance(expected, Raises):
                    check_same(r, expected, '{} version {} id {}, result {} looked at again after parsing other '
                               'objects'.format(name, m.version, m.id, k))
    return run


class Raises:
    def __init__(self, *kinds):
        self.kinds = kinds

    def __repr__(self):
        return 'an error: ' + ', '.join(k.__name__ for k in self.kinds)


# ------------------------------------------------------------------ real data
RESOURCES = [
    'one_shower.dat', '3_gammas_reuse_5.dat',
]


def resource_files(repo):
    import os
    d = os.path.join(repo, 'tests', 'resources')
    return sorted(os.path.join(d, n) for n in os.listdir(d)) if os.path.isdir(d) else []


_content = {}


def content(path):
    """decompressed bytes of a resource file, as far as they go; None if it is no eventio file"""
    import gzip
    import io
    import zstandard
    if path not in _content:
        with open(path, 'rb') as f:
            b = f.read()
        try:
            if b[:2] == b'\x1f\x8b':
                out = bytearray()
                g = gzip.GzipFile(fileobj=io.BytesIO(b))
                try:
                    while True:
                        x = g.read(1 << 16)
                        if not x:
                            break
                        out += x
                except EOFError:
                    pass
                b = bytes(out)
            elif b[:4] == b'\x28\xb5\x2f\xfd':
                b = zstandard.ZstdDecompressor().stream_reader(io.BytesIO(b), read_across_frames=True).read()
        except Exception:
            b = b''
        _content[path] = b if b[:4] == evio.SYNC else None
    return _content[path]


def complete_objs(data):
    """top-level objects that are completely stored in data"""
    out = []
    pos = 0
    while pos < len(data):
        try:
            end = pos + 16
            if end > len(data):
                break
            w0, _, w2 = struct.unpack_from('<IiI', data, pos + 4)
            size = w2 & (1 << 30) - 1
            if w0 >> 17 & 1:
                size |= (struct.unpack_from('<I', data, pos + 16)[0] & 0xfff) << 30
                end += 4
            end += size
            if end > len(data):
                break
            out += evio.read_objs(data, pos, end)
            pos = end
        except (EOFError, AssertionError, struct.error):
            break
    return out


def gen_resources(types, limit=None):
    """one case per resource file"""
    import os
    files = [p for p in resource_files(os.environ['MC_REPO'])]

    def g(c):
        return c.choose('file', files, free=True) if files else None
    return g


def make_run_resources(specs, parse=parse, per_file=12):
    """all blocks of the given kinds in a real file: reference decoder against the implementation"""
    from .common import check_same, fail
    by_type = {}
    for name, (type_, spec) in specs.items():
        by_type.setdefault(type_, []).append(spec)

    def run(cases, ctx):
        from eventio import EventIOFile
        for path in cases:
            if path is None:
                continue
            data = content(path)
            if data is None:
                continue
            models = {}
            for top in complete_objs(data):
                for m in top.walk():
                    models[m.address] = m
            count = {}

            def visit(o):
                m = models.get(o.address)
                if m is None:
                    return
                if m.sub:
                    for s in o:
                        visit(s)
                    return
                key = m.type, m.version
                key = (1205, m.id) if m.type == 1205 else key
                for spec in by_type.get(m.type, ()):
                    if count.get(key, 0) >= per_file:
                        break
                    try:
                        expected = read(m, spec)
                    except Skip:
                        continue
                    count[key] = count.get(key, 0) + 1
                    check_same(parse(o), expected, '{} at {} in {}'.format(o, o.address, path))
                    ctx.step()
                    ctx.state(path, m.address)
                    ctx.outcome(key)
                    break

            with EventIOFile(path, zcat=False) as f:
                n = 0
                try:
                    for o in f:
                        visit(o)
                except EOFError:
                    pass
    return run
