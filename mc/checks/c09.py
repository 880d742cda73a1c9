"""C09: only eventio files are opened, and big-endian data is never misread."""
import itertools
import os
import warnings
import zlib

import zstandard

from .. import evio, layouts as L
from ..common import check_header, fail
from ..engine import Part

ASSUMPTIONS = [
    'errors of the decompressors (EOFError, zlib.error, ZstdError) count as I/O errors',
]

LITTLE = b'\x37\x8a\x1f\xd4'
BIG = LITTLE[::-1]
REFUSALS = (ValueError, OSError, EOFError, zlib.error, zstandard.ZstdError)
# other words where a marker has to be
WORDS = [x for x in map(bytes, itertools.product((0, 0xff, *LITTLE), repeat=4)) if x not in (LITTLE, BIG)]
OTHER = [bytes(4), b'\xff' * 4, b'\x1f\x8b\x08\0', b'\x28\xb5\x2f\xfd', LITTLE[2:] + LITTLE[:2], LITTLE[1:] + LITTLE[:1], LITTLE[:3] + b'\0', b'\n\n\n\n']
VARIANTS = ['plain', 'gzip', 'zcat', 'zst', 'gzip2', 'zcat2', 'zst2']


def packed(variant, data):
    """zst2, gzip2: in pieces of one byte, and an empty one first"""
    if variant == 'plain':
        return data
    if variant in ('gzip', 'zcat'):
        return evio.gz(data)
    if variant == 'zst':
        return evio.zst(data)
    cuts = [0] + list(range(1, min(len(data), 6)))
    return evio.gz_multi(data, cuts) if variant in ('gzip2', 'zcat2') else evio.zst_multi(data, cuts)


def attempt(path, zcat, start, what, ctx):
    """open a file whose decompressed content starts with the given bytes; None: anything that is refused"""
    from eventio import EventIOFile
    good = start is not None and start[:4] in (LITTLE, BIG)
    try:
        f = EventIOFile(path, zcat=zcat)
    except REFUSALS as e:
        ctx.outcome('refused', type(e).__name__)
        if good:
            fail('{}: refused with {!r}', what, e)
        return
    with f:
        if not good:
            fail('{}: opened', what)
        ctx.outcome('opened')
        if start[:4] == BIG:
            for _ in range(2):
                try:
                    o = next(f)
                except NotImplementedError:
                    break
                except StopIteration:
                    o = 'the end'
                except Exception as e:
                    fail('{}: {!r} instead of NotImplementedError', what, e)
                fail('{}: gives {} instead of NotImplementedError', what, o)


# -------------------------------------------------------------- short contents
ALPHABET = [0x37, 0x8a, 0x1f, 0xd4, 0x00, 0x8b, 0x28, 0xb5, 0x2f, 0xfd, 0x08, 0xff]


def gen_short(longest):
    def g(c):
        n = c.choose('length', longest + 1, free=True)
        return bytes(ALPHABET[c.choose('byte', len(ALPHABET), free=True)] for _ in range(n))
    return g


def magic(b):
    return b[:2] == b'\x1f\x8b' or b[:4] == b'\x28\xb5\x2f\xfd'


def run_short(cases, ctx):
    for b in cases:
        with open('s.dat', 'wb') as f:
            f.write(b)
        # a damaged compressed file has no content
        attempt('s.dat', True, None if magic(b) else b, 'content {}'.format(b.hex()), ctx)
        ctx.step()
        ctx.state(b)


def gen_packed(longest):
    symbols = [0x37, 0x8a, 0x1f, 0xd4, 0x28]

    def g(c):
        variant = c.choose('variant', VARIANTS[1:], free=True)
        n = c.choose('length', longest + 1, free=True)
        return variant, bytes(symbols[c.choose('byte', len(symbols), free=True)] for _ in range(n))
    return g


def run_packed(cases, ctx):
    for variant, b in cases:
        with open('p.dat', 'wb') as f:
            f.write(packed(variant, b))
        attempt('p.dat', variant.startswith('zcat'), b, 'content {} as {}'.format(b.hex(), variant), ctx)
        ctx.step()
        ctx.state(variant, b)


# -------------------------------------------------------------- a full file with another start
def gen_start(c):
    variant = c.choose('variant', VARIANTS, free=True)
    kind = c.choose('marker', ['little', 'big'], free=True)
    how = c.choose('change', ['none', 'one byte', 'two bytes', 'swap', 'prefix', 'cut', 'whole file in a file'], free=True)
    m = bytearray(LITTLE if kind == 'little' else BIG)
    data = evio.build([L.mc_event(), L.generic(3)])
    rest = data[4:]
    if how == 'one byte':
        i = c.choose('at', 4, free=True)
        if variant in ('plain', 'zst'):
            m[i] ^= 1 + c.choose('xor', 255, free=True)
        else:
            m[i] ^= 1 << c.choose('bit', 8, free=True)
    elif how == 'two bytes':
        pairs = list(itertools.combinations(range(4), 2))
        i, j = c.choose('at', pairs, free=True)
        m[i] ^= 1 << c.choose('bit', 8, free=True)
        m[j] ^= 1 << c.choose('bit', 8, free=True)
    elif how == 'swap':
        m = bytearray(bytes(m[k] for k in c.choose('order', list(itertools.permutations(range(4))), free=True)))
    elif how == 'prefix':
        m = bytearray(c.choose('before', [b'\0', b'\n', b'\xef\xbb\xbf', b'\xff', LITTLE[:1], LITTLE[:3], BIG[:2]], free=True)) + m
    elif how == 'cut':
        m = m[c.choose('first', [1, 2, 3, 4], free=True):]
    return variant, bytes(m) + rest, how


def run_start(cases, ctx):
    for variant, data, how in cases:
        b = packed(variant, data)
        start = data
        if how == 'whole file in a file':
            # compressed twice: the content is a compressed file, not an eventio file
            b = evio.gz(b) if variant in ('gzip', 'zcat', 'gzip2', 'zcat2') else evio.zst(b) if variant != 'plain' else data[:4]
            start = None if variant != 'plain' else data[:4]
        with open('f.dat', 'wb') as f:
            f.write(b)
        attempt('f.dat', variant.startswith('zcat'), start, 'content starting with {} as {} ({})'.format(data[:8].hex(), variant, how), ctx)
        ctx.step()
        ctx.state(variant, data, how)


# -------------------------------------------------------------- a later marker is damaged
def gen_later(c):
    variant = c.choose('variant', VARIANTS, free=True)
    k = 1 + c.choose('object', 3, free=True)
    change = c.choose('change', ['one byte', 'big endian', 'shifted', 'removed', 'replaced', 'hole'], free=True)
    walk = c.choose('before', ['nothing', 'read', 'walk', 'peek'], free=True)
    i = x = 0
    if change == 'one byte':
        i = c.choose('at', 4, free=True)
        x = 1 + c.choose('xor', 255, free=True) if variant == 'plain' and walk == 'nothing' else 1 << c.choose('bit', 8, free=True)
    elif change == 'replaced':
        if variant == 'plain' and walk in ('nothing', 'peek'):
            x = WORDS[c.choose('marker', len(WORDS), free=True)]
        else:
            x = OTHER[c.choose('marker', len(OTHER), free=True)]
    elif change == 'hole':
        # as left behind by a writer that was interrupted
        i = (1, 2, 3, 4, 5, 8, 12, 16, 20, 32, 512, 4096)[c.choose('size', 12, free=True)]
        x = (0, 0xff, 0x20)[c.choose('fill', 3, free=True)]
    return variant, k, change, i, x, walk


def run_later(cases, ctx):
    from eventio import EventIOFile
    for variant, k, change, i, x, walk in cases:
        objs = [L.generic(5), L.box(L.mc_event(), L.generic(0)), L.generic(0), L.generic(16)]
        data = bytearray(evio.build(objs))
        at = objs[k].start
        if change == 'one byte':
            data[at + i] ^= x
        elif change == 'big endian':
            data[at:at + 4] = BIG
        elif change == 'shifted':
            data[at:at] = b'\0'
        elif change == 'replaced':
            data[at:at + 4] = x
        elif change == 'hole':
            data[at:at] = bytes([x]) * i
        else:
            del data[at:at + 4]
        with open('f.dat', 'wb') as f:
            f.write(packed(variant, bytes(data)))
        what = '{} of the marker of object {} ({} {}), {}, before: {}'.format(change, k, i, x, variant, walk)
        expected = NotImplementedError if change == 'big endian' else ValueError
        with EventIOFile('f.dat', zcat=variant.startswith('zcat')) as f:
            for m in objs[:k]:
                if walk == 'peek':
                    f.peek()
                o = next(f, None)
                if o is None:
                    fail('{}: ends before', what)
                check_header(o, m, what)
                if walk == 'read':
                    b = o.read()
                    if b != m.payload:
                        fail('{}: wrong payload before', what)
                elif walk == 'walk' and m.sub:
                    if len(list(o)) != len(m.children):
                        fail('{}: wrong sub-objects before', what)
            try:
                o = next(f)
            except expected:
                pass
            except StopIteration:
                fail('{}: ends like a complete file', what)
            except Exception as e:
                fail('{}: {!r} instead of {}', what, e, expected.__name__)
            else:
                fail('{}: {} is delivered', what, o)
        ctx.step(k + 1)
        ctx.state(variant, k, change, i, x, walk)
        ctx.outcome(k, change)


# -------------------------------------------------------------- the event readers
def gen_readers(c):
    return (c.choose('variant', VARIANTS, free=True), c.choose('reader', ['EventIOFile', 'SimTelFile', 'IACTFile'], free=True),
            c.choose('content', ['empty', 'short', 'noise', 'text', 'big', 'missing', 'directory', 'big and short', 'html'], free=True),
            c.flag('pathlib', True))


def run_readers(cases, ctx):
    import pathlib
    import eventio
    for variant, reader, content, as_path in cases:
        data = {'empty': b'', 'short': LITTLE[:3], 'noise': bytes(range(256)) * 9, 'text': b'not an eventio file\n' * 40,
                'big': BIG + evio.build([L.mc_event()])[4:], 'big and short': BIG,
                'html': b'<html>' + LITTLE * 9}.get(content)
        path = 'nothing here' if content == 'missing' else '.' if content == 'directory' else 'r.dat'
        if data is not None:
            with open(path, 'wb') as f:
                f.write(packed(variant, data))
        expected = (NotImplementedError,) if content.startswith('big') else \
            (FileNotFoundError,) if content == 'missing' else (OSError,) if content == 'directory' else REFUSALS
        what = '{} of {} as {}'.format(reader, content, variant)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with getattr(eventio, reader)(pathlib.Path(path) if as_path else path, zcat=variant.startswith('zcat')) as f:
                    o = next(f) if reader == 'EventIOFile' else next(iter(f))
        except expected:
            pass
        except Exception as e:
            fail('{}: {!r} instead of {}', what, e, expected)
        else:
            fail('{}: gives {}', what, o)
        ctx.step()
        ctx.state(variant, reader, content, as_path)
        ctx.outcome(reader, content)


def parts(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    return [
        Part('short contents', gen_short(n), run_short, batch=64, note='all files of at most {} bytes out of {}'.format(n, len(ALPHABET))),
        Part('packed contents', gen_packed(4 if q else 5), run_packed, batch=32, note='all contents of at most {} bytes out of 5 in all kinds of compression'.format(4 if q else 5)),
        Part('start', gen_start, run_start, batch=32, note='a file whose first marker is changed: all single bytes, pairs of bits, orders, prefixes, cuts'),
        Part('later markers', gen_later, run_later, batch=32, note='the marker of each later object changed: all single bytes, big endian, shifted, removed, replaced by other bytes, behind a hole'),
        Part('readers', gen_readers, run_readers, batch=8, note='event readers on other contents'),
    ]
