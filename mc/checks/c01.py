"""C01: object headers decode exactly."""
import os
import struct

from .. import evio
from ..common import fail
from ..engine import Part

ASSUMPTIONS = [
    'the file system stores sparse files (payloads up to 4 TiB are holes)',
    'the file under test is small-endian; big-endian files are C09',
]


def expected(words, top, start):
    w0, w1, w2, w3 = words
    ext = w0 >> 17 & 1
    size = w2 & 0x3fffffff
    if ext:
        size += (w3 & 0xfff) << 30
    hs = 12 + 4 * ext + (4 if top else 0)
    ident = w1 - (1 << 32) if w1 >> 31 else w1
    return {
        'type': w0 & 0xffff, 'version': w0 >> 20, 'id': ident, 'user': w0 >> 16 & 1, 'extended': ext,
        'only_subobjects': w2 >> 30 & 1, 'size': size, 'address': start + hs,
    }


def observe(o):
    h = o.header
    if o.address != h.content_address or o.size != h.content_size:
        fail('object and header disagree: address {} {}, size {} {}', o.address, h.content_address,
             o.size, h.content_size)
    for k in (h.user, h.extended, h.only_subobjects):
        if k not in (0, 1):
            fail('flag with value {!r}', k)
    return {
        'type': h.type, 'version': h.version, 'id': h.id, 'user': int(h.user), 'extended': int(h.extended),
        'only_subobjects': int(h.only_subobjects), 'size': o.size, 'address': o.address,
    }


SENTINEL = (54321 | 7 << 20, 77, 8, 0)


def header_bytes(words, top):
    b = struct.pack('<III', *words[:3])
    if words[0] >> 17 & 1:
        b += struct.pack('<I', words[3])
    return (evio.SYNC if top else b'') + b


# -- every bit and every pair of bits, for objects of any size ----------------
# bits: 0..31 type word, 32..63 id, 64..95 length word, 96..127 extension word
BASES = [
    (0x0000003c, 0, 0, 0),                                # nothing set (type 60)
    (0x0002003c, 0, 0, 0),                                # nothing set, with extension word
    (0xffffffff & ~(1 << 17), 0xffffffff, 0x80000010, 0xffffffff),
    (0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff),     # all set
    (0x5a52ea5b | 1 << 17, 0x9e3779b1, 0x00001234, 0xabcde001),
]


def gen_bits(c):
    base = c.choose('base', BASES, free=True)
    top = c.choose('level', ['top', 'nested'], free=True) == 'top'
    flips = []
    first = c.choose('bit1', 129)
    if first:
        flips.append(first - 1)
        second = c.choose('bit2', 129 - first)
        if second:
            flips.append(first - 1 + second)
    words = list(base)
    for b in flips:
        words[b // 32] ^= 1 << b % 32
    return tuple(words), top


def make_run_bits():
    def run(cases, ctx):
        from eventio import EventIOFile
        for words, top in cases:
            if (words[0] & 0xffff) in evio.TRACKING:
                continue        # the id must fit to the type, this is C30
            if evio.class_name(words[0] & 0xffff) in ('Photons', 'TelescopeDefinition') and (words[2] & 0x3fffffff) < 12:
                continue        # too short to be one
            start = 0 if top else 20
            exp = expected(words, top, start)
            total = exp['address'] - start + exp['size']
            if not top and total + 20 >= 1 << 42:
                continue        # does not fit into a container
            path = 'bits.dat'
            with open(path, 'wb') as f:
                if top:
                    f.write(header_bytes(words, True))
                else:
                    # container with extension word that holds the object and the sentinel
                    f.write(evio.head(SUBTYPE, size=total + 12 + 8, ext=True, sub=1))
                    f.write(header_bytes(words, False))
                f.seek(start + total)
                f.write(header_bytes(SENTINEL, top) + bytes(8))
            with EventIOFile(path) as f:
                it = f
                if not top:
                    it = next(f)
                    if it.size != total + 20:
                        fail('container: size {} instead of {}', it.size, total + 20)
                o = next(it)
                got = observe(o)
                if got != exp:
                    fail('header words {}: {} instead of {}', [hex(w) for w in words], got, exp)
                name = evio.class_name(exp['type'])
                if type(o).__name__ != name:
                    fail('type {} delivered as {}', exp['type'], type(o).__name__)
                s = next(it, None)
                if s is None:
                    fail('header words {}: the next object is not found', [hex(w) for w in words])
                got = observe(s)
                exp2 = expected(SENTINEL, top, start + total)
                if got != exp2:
                    fail('after header words {}: next object {} instead of {}', [hex(w) for w in words], got, exp2)
                if next(it, None) is not None:
                    fail('object after the last one')
            ctx.step(2)
            ctx.state(words, top)
            ctx.outcome(tuple(exp.values()))
    return run


SUBTYPE = 60001


# -- every type ---------------------------------------------------------------
CHUNK = 2048


def gen_types(c):
    return (c.choose('types', 65536 // CHUNK, free=True), c.choose('level', ['top', 'nested'], free=True),
            c.choose('ext', [False, True], free=True))


def run_types(cases, ctx):
    from eventio import EventIOFile
    for chunk, level, ext in cases:
        objs = []
        for t in range(chunk * CHUNK, (chunk + 1) * CHUNK):
            ident = evio.tracking_id(evio.TRACKING[t]) if t in evio.TRACKING else t - 30000
            objs.append(evio.Obj(t, struct.pack('<hhfi', 1, 1, 0, 0) + bytes(4 * (t % 3)),
                                 version=t % 7, ident=ident, ext=ext))
        tops = objs if level == 'top' else [evio.Obj(SUBTYPE, objs)]
        with open('types.dat', 'wb') as f:
            f.write(evio.build(tops))
        with EventIOFile('types.dat') as f:
            it = f if level == 'top' else next(f)
            for m in objs:
                o = next(it)
                h = o.header
                got = (h.type, h.version, h.id, h.user, bool(h.extended), h.only_subobjects, o.size, o.address,
                       type(o).__name__)
                exp = (m.type, m.version, m.id, 0, ext, 0, m.size, m.address, evio.class_name(m.type))
                if got != exp:
                    fail('{} instead of {}', got, exp)
                ctx.state(h.type, level, ext)
                ctx.step()
            if next(it, None) is not None:
                fail('object after the last one')


# -- every version, and ids ---------------------------------------------------
IDS = sorted({s * (1 << k) + d for k in range(32) for s in (1, -1) for d in (-1, 0, 1)
              if -(1 << 31) <= s * (1 << k) + d < 1 << 31})


def gen_versions(c):
    return c.choose('what', ['versions', 'ids'], free=True), c.choose('level', ['top', 'nested'], free=True), \
        c.choose('user', 2, free=True), c.choose('sub', 2, free=True)


def run_versions(cases, ctx):
    from eventio import EventIOFile
    for what, level, user, sub in cases:
        objs = []
        payload = [] if sub else b'12345678'
        if what == 'versions':
            for v in range(4096):
                objs.append(evio.Obj(60000, payload, version=v, ident=v - 2000, user=user))
        else:
            for i in IDS:
                objs.append(evio.Obj(2021, payload, version=1, ident=i, user=user))
        with open('versions.dat', 'wb') as f:
            f.write(evio.build(objs if level == 'top' else [evio.Obj(SUBTYPE, objs)]))
        with EventIOFile('versions.dat') as f:
            it = f if level == 'top' else next(f)
            n = 0
            for m in objs:
                o = next(it)
                h = o.header
                got = (h.type, h.version, h.id, int(h.user), int(h.extended), int(h.only_subobjects), o.size, o.address)
                exp = (m.type, m.version, m.id, user, 0, sub, m.size, m.address)
                if got != exp:
                    fail('{} instead of {}', got, exp)
                ctx.state(*exp, level)
                ctx.step()


def parts(tier):
    return [
        Part('types', gen_types, run_types, note='all 65536 type values, at top level and nested, with and without extension word'),
        Part('versions', gen_versions, run_versions, note='all 4096 versions, ids around all powers of two'),
        Part('bits', gen_bits, make_run_bits(), bound=2, batch=16,
             note='every single bit and every pair of bits of all header words flipped from 5 base headers, '
                  'top level and nested, payloads up to 4 TiB, with the following object'),
    ]
