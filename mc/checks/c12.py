"""Blocks of arrays stored as differences."""
import numpy as np

from .. import evio
from ..common import fail, need
from ..engine import Part
from .c11 import enc, zigzag, bits_of

ASSUMPTIONS = [
    'differences are the 32 bit numbers the writing programs can store (encodings of up to 5 bytes); longer encodings and '
    'higher bits do not occur in this format',
    'which exception is raised for data that ends early is not specified',
]

M = 0xffffffff


def call(data, n_arrays, n, offset=None):
    from eventio.var_int import unsigned_varint_arrays_differential as f
    return f(data, n_arrays, n) if offset is None else f(data, n_arrays, n, offset)


def check(data, rows, shape, offset, size, what):
    """rows: expected values"""
    a, used = call(data, shape[0], shape[1], offset)
    if a.shape != shape or a.dtype != np.uint32:
        fail('{}: {} array of shape {} instead of {}', what, a.dtype, a.shape, shape)
    if a.tolist() != rows:
        fail('{}: {} instead of {}', what, a.tolist(), rows)
    if used != size:
        fail('{}: {} bytes used instead of {}', what, used, size)
    return a


def raises(data, shape, offset, what):
    try:
        r = call(data, shape[0], shape[1], offset)
    except Exception:
        return
    fail('{}: gives {!r}', what, r)


def decode(us):
    v, out = 0, []
    for u in us:
        v = (v + zigzag(u)) & M
        out.append(v)
    return out


# ---------------------------------------------------------------- all short differences
def gen_short(c):
    length = c.choose('length', (1, 2, 3), free=True)
    return length, c.choose('first byte', 256 >> length, free=True), c.choose('start', (0, 1, 1 << 31, M), free=True)


def run_short(cases, ctx):
    for length, first, start in cases:
        n = 1 << 8 * (length - 1)
        us = np.arange(n, dtype='i8') | first << 8 * (length - 1)
        s = np.where(us & 1, -(us >> 1) - 1, us >> 1)
        # each difference on its own, in the second of two values
        head = evio.vs(start - (1 << 32) if start >> 31 else start)
        one = b''.join(head + enc(length, int(u)) for u in us)
        a, used = call(one, n, 2, 0)
        exp = np.stack([np.full(n, start, 'i8'), (start + s) & M], 1)
        need(used == len(one) and np.array_equal(a, exp), 'differences of {} bytes starting with {:#x}, from {}', length, first, start)
        # and all of them after each other
        d = head + b''.join(enc(length, int(u)) for u in us)
        a, used = call(d, 1, n + 1, 0)
        exp = (start + np.concatenate([[0], np.cumsum(s)])) & M
        need(used == len(d) and np.array_equal(a[0], exp), 'sum of differences of {} bytes starting with {:#x}, from {}', length, first, start)
        ctx.step(2 * n)
        ctx.state(length, first, start)
        ctx.outcome(length, start)


# ---------------------------------------------------------------- long differences
def gen_long(c):
    length = c.choose('length', (1, 2, 3, 4, 5), free=True)
    ones = c.flag('ones', free=True)
    start = c.choose('start', (0, 5, 0x7fffffff, 1 << 31, M), free=True)
    n = min(32, bits_of(length))
    v = ones * ((1 << n) - 1)
    for i in range(n):
        if c.flag('bit'):
            v ^= 1 << i
    return length, v, start


def run_long(cases, ctx):
    for length, u, start in cases:
        head = evio.vs(start - (1 << 32) if start >> 31 else start)
        b = head + enc(length, u)
        what = 'difference {} after {}'.format(enc(length, u).hex(), start)
        exp = [start, (start + zigzag(u)) & M]
        check(b, [exp], (1, 2), 0, len(b), what)
        check(b'\xf1\x02' + b + b + b'\x07', [exp, exp], (2, 2), 2, 2 * len(b), what)
        for cut in range(len(b)):
            raises(b[:cut], (1, 2), 0, what + ' cut to {}'.format(b[:cut].hex()))
        ctx.step(2 + len(b))
        ctx.state(length, u, start)
        ctx.outcome(length, u.bit_length())


# ---------------------------------------------------------------- values
VALUES = sorted({0, 1, 2, 63, 64, 65, 127, 128, 8191, 8192, 8193, 1 << 20, (1 << 20) + 1, 1 << 27, (1 << 27) - 1, 0x7ffffffe,
                 0x7fffffff, 1 << 31, (1 << 31) + 1, 0xfffffffe, M, M - 64, 300, 40000, M - 8192, M - (1 << 20)})


def gen_values(depth):
    def gen(c):
        row = [c.choose('value', VALUES, free=True) for _ in range(depth)]
        rows = c.choose('arrays', (1, 2, 3))
        offset = c.choose('offset', (0, 1, 7))
        extra = c.choose('encoding', ('shortest', 'longest'))
        return row, rows, offset, extra
    return gen


def run_values(cases, ctx):
    for row, n, offset, extra in cases:
        rows = [row[i:] + row[:i] for i in range(n)]
        b = b''
        for r in rows:
            last = 0
            for v in r:
                d = (v - last) & M
                u = evio.zigzag(d - (1 << 32) if d >> 31 else d)
                b += enc(5, u) if extra == 'longest' else evio.vu(u)
                last = v
        data = bytes(range(250 - offset, 250)) + b
        what = 'arrays {}, offset {}'.format(rows, offset)
        check(data + b'\x55\x81', rows, (n, len(row)), offset, len(b), what)
        a = check(data, rows, (n, len(row)), offset, len(b), what)
        check(memoryview(bytearray(data)), rows, (n, len(row)), offset, len(b), what)
        raises(data[:-1], (n, len(row)), offset, what + ' without the last byte')
        need(a.tolist() == rows, '{}: result changed afterwards', what)
        ctx.step(4)
        ctx.state(tuple(row), n, offset, extra)
        ctx.outcome(len(b))


# ---------------------------------------------------------------- shapes
def gen_shapes(c):
    n, m = c.choose('arrays', 6, free=True), c.choose('elements', 6, free=True)
    kind = c.choose('differences', ('small', 'mixed', 'large'), free=True)
    return n, m, kind, c.choose('offset', (0, 1, 2, 100), free=True)


def run_shapes(cases, ctx):
    for n, m, kind, offset in cases:
        us = {'small': [1, 6, 8, 3], 'mixed': [9, 0x3fff, 0x20, 0x1fffff, 0xffffff, 0xfffffff0, 1], 'large': [0xfffffff3, 0x7ffffff2]}[kind]
        k, rows, b, ends = 0, [], b'', [0]
        for i in range(n):
            row = []
            for j in range(m):
                row.append(us[k % len(us)] + i * (k % 2 == 0))
                b += evio.vu(row[-1])
                ends.append(len(b))
                k += 1
            rows.append(decode(row))
        data = bytes([0x80]) * offset + b
        what = '{} arrays of {} elements, offset {}, {}'.format(n, m, offset, data.hex())
        check(data, rows, (n, m), offset, len(b), what)
        check(data + b'\xc0\xc0', rows, (n, m), offset, len(b), what)
        if offset == 0:
            a, used = call(data, n, m)
            need(a.tolist() == rows and used == len(b), '{}: {} without offset', what, a)
        for cut in range(len(b)):
            raises(data[:offset + cut], (n, m), offset, what + ' cut after {} bytes'.format(cut))
        ctx.step(2 + len(b))
        ctx.state(n, m, kind, offset)
        ctx.outcome(n, m, kind)


def parts(tier):
    q = tier == 'quick'
    return [
        Part('short', gen_short, run_short, batch=4, note='all differences of up to 3 bytes, from 4 values'),
        Part('long', gen_long, run_long, bound=2 if q else 3, batch=256, note='differences of all lengths, at most 2 (3) bits changed'),
        Part('values', gen_values(3), run_values, bound=1 if q else 3, batch=256, note='all triples of 26 boundary values'),
        Part('shapes', gen_shapes, run_shapes, batch=16, note='all shapes to 5 x 5, every cut'),
    ]
