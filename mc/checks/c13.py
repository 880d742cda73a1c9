"""Sequences of the primitive readers on all kinds of sources."""
import gzip
import io
import struct

import numpy as np
import zstandard

from .. import evio
from ..common import Arr, check_same, fail, need
from ..engine import Part
from .c11 import NoSeek, enc, zigzag

ASSUMPTIONS = [
    'reading data that end too early is not part of this property (C07 covers objects)',
    'values: boundary values and one-bit patterns of every width stand for all values',
]


def f4(x):
    return float(np.float32(x))


INTS = {2: [77, 0, 1, -1, 127, 128, 255, 256, 32767, -32768, -2], 4: [305419896, 0, 1, -1, 255, 256, 65535, 65536, 1 << 24, 0x7fffffff, -(1 << 31)]}
FLOATS = [1.5, 0.0, -0.0, float('inf'), float('-inf'), float('nan'), f4(1e-45), f4(3.4028234663852886e38), -2.25, f4(0.1)]
DOUBLES = [1.5, 0.0, -0.0, float('inf'), float('nan'), 5e-324, 1.7976931348623157e308, 0.1, -1e-300]
TEXTS = [b'text', b'', b'a', b'\0', b'\xff\xfe', b'x' * 127, b'y' * 128, b'z' * 300]
VUS = [0, 1, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, 1 << 28, 1 << 35, 1 << 42, 1 << 49, 1 << 56, (1 << 64) - 1]


def readers():
    """name -> list of (call, bytes, expected)"""
    out = {}

    def add(name, fn, b, e):
        out.setdefault(name, []).append((fn, b, e))

    for v in INTS[2]:
        add('short', lambda t, f: t.read_short(f), struct.pack('<h', v), v)
        add('unsigned short', lambda t, f: t.read_unsigned_short(f), struct.pack('<h', v), v & 0xffff)
    for v in INTS[4]:
        add('int', lambda t, f: t.read_int(f), struct.pack('<i', v), v)
        add('unsigned int', lambda t, f: t.read_unsigned_int(f), struct.pack('<i', v), v & 0xffffffff)
        add('time', lambda t, f: list(t.read_time(f)), struct.pack('<ii', v, 999), [v, 999])
        add('time', lambda t, f: list(t.read_time(f)), struct.pack('<ii', 17, v), [17, v])
        add('from <hi', lambda t, f: list(t.read_from(f, '<hi')), struct.pack('<hi', 3, v), [3, v])
        add('from hhfi', lambda t, f: list(t.read_from(f, 'hhfi')), struct.pack('<hhfi', 3, -4, 2.5, v), [3, -4, 2.5, v])
    for n in (3, 0, 1, 2, 50):
        vs = [(i * 1234567 + 89) % (1 << 31) - (i & 1) * (1 << 31) for i in range(n)]
        add('ints', lambda t, f, n=n: list(t.read_ints(f, n)), struct.pack('<%di' % n, *vs), vs)
    for v in FLOATS:
        add('float', lambda t, f: t.read_float(f), struct.pack('<f', v), v)
    for v in DOUBLES:
        add('double', lambda t, f: t.read_double(f), struct.pack('<d', v), v)
    for v in TEXTS:
        add('string', lambda t, f: t.read_string(f), struct.pack('<h', len(v)) + v, v)
        add('var string', lambda t, f: t.read_var_string(f), evio.vu(len(v)) + v, v)
    add('var string', lambda t, f: t.read_var_string(f), evio.vu(4, 3) + b'abcd', b'abcd')
    add('string', lambda t, f: t.read_string(f), struct.pack('<h', 32767) + b'w' * 32767, b'w' * 32767)
    for v in VUS:
        add('unsigned varint', lambda t, f: t.read_unsigned_varint(f), evio.vu(v), v)
        add('varint', lambda t, f: t.read_varint(f), evio.vu(v), zigzag(v))
    for n in range(1, 10):
        add('unsigned varint', lambda t, f: t.read_unsigned_varint(f), enc(n, 5), 5)
        add('varint', lambda t, f: t.read_varint(f), enc(n, 5), -3)
    for dt in ('<i2', '<u2', '<i4', '<u4', '<f4', '<f8', 'u1', 'i1', '<i8', '<u8', 'f4', 'i2', np.float32, np.uint16, np.int32, np.bool_):
        d = np.dtype(dt)
        for n in (3, 0, 1, 20):
            raw = bytes((i * 37 + 11) % 256 for i in range(n * d.itemsize))
            if d.kind == 'b':
                raw = bytes(i % 2 for i in range(n))
            e = Arr(np.frombuffer(raw, d.newbyteorder('<')), (n,))
            add('array ' + d.str, lambda t, f, dt=dt, n=n: t.read_array(f, dt, n), raw, e)
    return out


R = readers()
NAMES = sorted(R, key=lambda n: (n.startswith('array'), n))
FEW = ['short', 'int', 'float', 'double', 'string', 'var string', 'varint', 'unsigned varint', 'time', 'from hhfi', 'ints',
       'unsigned short', 'unsigned int', 'array <f4', 'array |u1', 'array |b1']
SOURCES = ('bytesio', 'object', 'file', 'stream', 'gzip file', 'piece')


def sources(kind, b):
    """yields (file-like, tell or None)"""
    from eventio import EventIOFile
    if kind == 'bytesio':
        f = io.BytesIO(b)
        yield f, f.tell
    elif kind == 'stream':
        f = NoSeek(b)
        yield f, None
    elif kind == 'file':
        with open('prim.dat', 'wb') as f:
            f.write(b)
        with open('prim.dat', 'rb') as f:
            yield f, f.tell
    elif kind == 'piece':
        f = io.BufferedReader(io.BytesIO(b), 3)
        yield f, f.tell
    else:
        data = evio.build([evio.Obj(60000, b'\xff' * 9), evio.Obj(60001, [evio.Obj(60002, b), evio.Obj(60003, b'\xee' * 50)])])
        with open('prim.dat', 'wb') as f:
            f.write(evio.gz(data) if kind == 'gzip file' else data)
        with EventIOFile('prim.dat', zcat=False) as f:
            next(f)
            o = next(next(f))
            yield o, o.tell


def gen_seq(names, depth):
    def gen(c):
        seq = []
        for i in range(depth):
            name = c.choose('reader', names, free=True)
            seq.append((name, c.choose('value', len(R[name]))))
        return seq, c.choose('source', SOURCES, free=len(names) > 20)
    return gen


def run_seq(cases, ctx):
    from eventio import tools
    for seq, kind in cases:
        b = b''.join(R[n][k][1] for n, k in seq) + b'\x99\xff'
        for f, tell in sources(kind, b):
            pos = 0
            for n, k in seq:
                fn, raw, e = R[n][k]
                what = '{} number {} of {} in {}'.format(n, k, seq, kind)
                check_same(fn(tools, f), e, what)
                pos += len(raw)
                if tell:
                    need(tell() == pos, '{}: source is at {} instead of {}', what, tell(), pos)
                ctx.step()
            check_same(f.read(2), b'\x99\xff', 'data after {} in {}'.format(seq, kind))
        ctx.state(tuple(seq), kind)
        ctx.outcome(len(b))


# ------------------------------------------------------------------ sizes around all powers of two
def gen_sizes(top):
    def gen(c):
        k = c.choose('log2 of the size', top + 1, free=True)
        n = max(0, 2 ** k + c.choose('offset', (0, -1, 1), free=True))
        return n, c.choose('reader', ('array |u1', 'array <i4', 'array <f8', 'var string', 'from', 'ints'), free=True), \
            c.choose('source', ('bytesio', 'object', 'stream', 'gzip file'), free=True)
    return gen


def run_sizes(cases, ctx):
    from eventio import tools
    for n, reader, kind in cases:
        name, _, dt = reader.partition(' ')
        size = np.dtype(dt).itemsize if name == 'array' else 4 if name == 'ints' else 1
        count = n // size
        raw = (np.arange(count * size, dtype=np.uint32) * 2654435761 >> 13).astype(np.uint8)
        if dt == '<f8':
            raw &= 0x3f
        raw = raw.tobytes()
        b = (evio.vu(count) if name == 'var' else b'') + raw + b'\x99\xff' + bytes(40)
        for f, tell in sources(kind, b):
            what = '{} of {} bytes in {}'.format(reader, n, kind)
            if name == 'array':
                r = tools.read_array(f, dt, count)
                ok = r.dtype == np.dtype(dt) and r.tobytes() == raw
            elif name == 'var':
                ok = tools.read_var_string(f) == raw
            elif name == 'from':
                ok = tools.read_from(f, '<{}s'.format(count)) == (raw,)
            else:
                ok = list(tools.read_ints(f, count)) == np.frombuffer(raw, '<i4').tolist()
            need(ok, '{}: wrong values', what)
            if tell:
                pos = len(b) - 42
                need(tell() == pos, '{}: source is at {} instead of {}', what, tell(), pos)
            need(f.read(2) == b'\x99\xff', '{}: wrong data after it', what)
            ctx.step()
        ctx.state(n, reader, kind)
        ctx.outcome(reader, n)


def parts(tier):
    q = tier == 'quick'
    return [
        Part('pairs', gen_seq(NAMES, 2), run_seq, bound=2, batch=256, note='all pairs of readers on all sources, one (two) with any value'),
        Part('sizes', gen_sizes(25 if q else 27), run_sizes, batch=8, note='sizes 2^k and one more or less, up to 2^{} bytes'.format(25 if q else 27)),
        Part('triples', gen_seq(FEW, 3), run_seq, bound=1 if q else 3, batch=256, note='all triples of 16 readers, one (two) other values or sources'),
    ]
