"""Variable-length integers: every encoding, all decoders."""
import io
import itertools

import numpy as np

from .. import evio
from ..common import fail, need
from ..engine import Part

ASSUMPTIONS = [
    'encodings of 4 and more bytes: payload patterns with at most 2 bits (3 thorough) different from all-zero or all-one '
    'stand for all patterns; shorter ones are enumerated completely',
    'which exception is raised for data that ends inside a number is not specified',
]

PREFIX = {1: 0, 2: 0x80, 3: 0xc0, 4: 0xe0, 5: 0xf0, 6: 0xf8, 7: 0xfc, 8: 0xfe, 9: 0xff}


def bits_of(length):
    return 7 * length if length < 9 else 64


def enc(length, v):
    """v in exactly `length` bytes"""
    b = v.to_bytes(length, 'big')
    return bytes([b[0] | PREFIX[length]]) + b[1:]


def zigzag(u):
    return -(u >> 1) - 1 if u & 1 else u >> 1


class NoSeek:
    """the least a file-like source has to offer"""

    def __init__(self, b):
        self.f = io.BytesIO(b)
        self.left = lambda: len(b) - self.f.tell()

    def read(self, n=-1):
        return self.f.read(n)


def raises(fn, what):
    try:
        r = fn()
    except Exception:
        return
    fail('{} gives {!r}', what, r)


def same(a, e, what):
    if a != e:
        fail('{} gives {!r} instead of {!r}', what, a, e)


def single(b, length, u, deep=True):
    """check all decoders on the encoding b of u"""
    from eventio import var_int as vi, tools
    s = zigzag(u)
    same(tuple(vi.unsigned_varint(b)), (u, length), 'unsigned_varint({})'.format(b.hex()))
    same(tuple(vi.varint(b)), (s, length), 'varint({})'.format(b.hex()))
    same(vi.parse_varint(b), u, 'parse_varint({})'.format(b.hex()))
    f = io.BytesIO(b + b'\xff')
    same((tools.read_unsigned_varint(f), f.tell()), (u, length), 'read_unsigned_varint({})'.format(b.hex()))
    f.seek(0)
    same((tools.read_varint(f), f.tell()), (s, length), 'read_varint({})'.format(b.hex()))
    if not deep:
        return
    for kind in (bytearray, memoryview, lambda x: np.frombuffer(x, 'u1')):
        k = kind(b)
        same(tuple(vi.unsigned_varint(k)), (u, length), 'unsigned_varint({!r})'.format(k))
        same(tuple(vi.varint(k)), (s, length), 'varint({!r})'.format(k))
    for pre, post in ((b'\x81', b''), (b'\xff\x00\xfe', b'\xff'), (bytes(range(130, 141)), b'\x00\x01')):
        d = pre + b + post
        o = len(pre)
        w = '({}, offset {})'.format(d.hex(), o)
        same(tuple(vi.unsigned_varint(d, o)), (u, length), 'unsigned_varint' + w)
        same(tuple(vi.varint(d, offset=o)), (s, length), 'varint' + w)
        a, n = vi.unsigned_varint_array(d, 1, o)
        same((a.tolist(), n), ([u], length), 'unsigned_varint_array' + w)
        a, n = vi.varint_array(d, 1, offset=o)
        same((a.tolist(), n), ([s], length), 'varint_array' + w)
        f = NoSeek(d)
        f.read(o)
        same((tools.read_unsigned_varint(f), f.left()), (u, len(post)), 'read_unsigned_varint' + w)
        f = NoSeek(d)
        f.read(o)
        same((tools.read_varint(f), f.left()), (s, len(post)), 'read_varint' + w)


def truncated(b):
    from eventio import var_int as vi, tools
    for n in range(len(b)):
        c = b[:n]
        w = ' of the cut number ' + c.hex()
        raises(lambda: vi.unsigned_varint(c), 'unsigned_varint' + w)
        raises(lambda: vi.varint(c), 'varint' + w)
        raises(lambda: vi.parse_varint(c), 'parse_varint' + w)
        raises(lambda: vi.unsigned_varint_array(c, 1), 'unsigned_varint_array' + w)
        raises(lambda: vi.varint_array(c, 1), 'varint_array' + w)
        raises(lambda: vi.varint_array(b'\x03' + c, 2), 'varint_array' + w)
        raises(lambda: vi.unsigned_varint_array(b'\x03' + c, 1, 1), 'unsigned_varint_array' + w)
        raises(lambda: vi.varint(b'\x03\xff' + c, 2), 'varint' + w)
        raises(lambda: vi.unsigned_varint(b'\x03\xff' + c, 2), 'unsigned_varint' + w)
        raises(lambda: tools.read_unsigned_varint(io.BytesIO(c)), 'read_unsigned_varint' + w)
        raises(lambda: tools.read_varint(io.BytesIO(c)), 'read_varint' + w)


# ---------------------------------------------------------------- all short encodings
def gen_short(c):
    return c.choose('first byte', 256, free=True)


def run_short(cases, ctx):
    from eventio import var_int as vi
    for first in cases:
        length = next(n for n in range(9, 0, -1) if n == 1 or first & PREFIX[n] == PREFIX[n])
        same(vi.get_length_of_varint(first), length, 'get_length_of_varint({:#x})'.format(first))
        ctx.state('first', first)
        ctx.outcome(length)
        if length > 3:
            continue
        numbers = range(1 << 8 * (length - 1))
        base = (first & ~PREFIX[length]) << 8 * (length - 1)
        us = [base | n for n in numbers]
        bs = [enc(length, u) for u in us]
        for i, (u, b) in enumerate(zip(us, bs)):
            if length < 3:
                single(b, length, u)
                truncated(b)
            elif i % 257 == 0:
                single(b, length, u)
            elif i % 16 == 0:
                single(b, length, u, False)
            ctx.step()
        # the array decoders get all of them
        d = b''.join(bs)
        a, n = vi.unsigned_varint_array(d, len(us))
        need(n == len(d) and np.array_equal(a, np.array(us, 'u8')), 'unsigned_varint_array with first byte {:#x}', first)
        a, n = vi.varint_array(d, len(us))
        need(n == len(d) and np.array_equal(a, np.array([zigzag(u) for u in us], 'i8')), 'varint_array with first byte {:#x}', first)


# ---------------------------------------------------------------- bit patterns of long encodings
def gen_long(c):
    length = c.choose('length', range(1, 10), free=True)
    ones = c.flag('ones', free=True)
    n = bits_of(length)
    v = ones * ((1 << n) - 1)
    for i in range(n):
        if c.flag('bit'):
            v ^= 1 << i
    return length, v


def run_long(cases, ctx):
    for length, v in cases:
        b = enc(length, v)
        single(b, length, v)
        truncated(b)
        ctx.step()
        ctx.state(length, v)
        ctx.outcome(length, v.bit_length())


# ---------------------------------------------------------------- sequences
ALPHABET = [(1, 0), (1, 0x7f), (1, 1), (2, 0x3fff), (2, 0x80), (2, 5), (3, 0x1fffff), (3, 0x4000), (4, 0xfffffff), (4, 3),
            (5, 0xffffffff), (5, 0x7ffffffff), (6, 1 << 35), (7, (1 << 49) - 1), (8, (1 << 56) - 1), (8, 7), (9, (1 << 64) - 1),
            (9, 1 << 63), (9, 0x1234)]


def gen_seq(depth):
    def gen(c):
        seq = []
        for i in range(depth):
            k = c.choose('number', len(ALPHABET) + 1, free=True)
            if k == 0:
                break
            seq.append(ALPHABET[k - 1])
        return seq, c.choose('offset', (0, 1, 5, 64))
    return gen


def run_seq(cases, ctx):
    from eventio import var_int as vi, tools
    for seq, o in cases:
        us = [u for _, u in seq]
        ss = [zigzag(u) for u in us]
        body = b''.join(enc(n, u) for n, u in seq)
        pre = bytes((i * 91 + 200) % 256 for i in range(o))
        for post in (b'', b'\x85\x11'):
            d = pre + body + post
            w = '({}, {}, {})'.format(d.hex(), len(seq), o)
            a, n = vi.unsigned_varint_array(d, len(seq), o)
            same((a.tolist(), n, a.dtype), (us, len(body), np.uint64), 'unsigned_varint_array' + w)
            a, n = vi.varint_array(d, len(seq), o)
            same((a.tolist(), n, a.dtype), (ss, len(body), np.int64), 'varint_array' + w)
            f = NoSeek(d)
            f.read(o)
            for (length, u) in seq:
                before = f.left()
                same((tools.read_varint(f), before - f.left()), (zigzag(u), length), 'read_varint' + w)
            f = NoSeek(d)
            f.read(o)
            same([tools.read_unsigned_varint(f) for _ in seq], us, 'read_unsigned_varint' + w)
            p = o
            for (length, u) in seq:
                same(tuple(vi.varint(d, p)), (zigzag(u), length), 'varint' + w)
                same(tuple(vi.unsigned_varint(d, p)), (u, length), 'unsigned_varint' + w)
                p += length
        # cut anywhere
        for cut in range(len(body)):
            d = pre + body[:cut]
            raises(lambda: vi.varint_array(d, len(seq), o), 'varint_array of {} numbers in {}'.format(len(seq), d.hex()))
            raises(lambda: vi.unsigned_varint_array(d, len(seq), o), 'unsigned_varint_array of {} numbers in {}'.format(len(seq), d.hex()))
        ctx.step(len(seq) + 1)
        ctx.state(tuple(seq), o)
        ctx.outcome(len(seq), len(body))


def parts(tier):
    q = tier == 'quick'
    return [
        Part('short', gen_short, run_short, batch=1, note='all encodings of up to 3 bytes, all first bytes'),
        Part('long', gen_long, run_long, bound=2 if q else 3, batch=256, note='all lengths, at most 2 (3) bits changed'),
        Part('sequences', gen_seq(3 if q else 4), run_seq, bound=1, batch=256, note='all sequences over 19 encodings, offsets, every cut'),
    ]
