"""C06: compression is transparent."""
import gzip
import os
import pathlib
import shutil
import struct
import subprocess
import warnings

import zstandard

from .. import catalogue, codec, evio, events, layouts as L
from ..common import fail, canon, stored
from ..engine import HarnessError, Part

ASSUMPTIONS = [
    'the decompressor is the installed gzip program (directly, or behind a stand-in that hands on its output in pieces), '
    'the gzip module or the zstandard module; damaged compressed data is the subject of C07 and C09',
    'a stream that cannot go back may refuse an access that needs earlier bytes with any exception',
]

PACKED = [v for v in evio.VARIANTS if v != 'plain']


# ------------------------------------------------------------------ what a user sees of a file
def seen(path, mode, kw, limit=None):
    """everything a sequential reader gets, as comparable values"""
    from eventio import EventIOFile
    out = []

    def visit(o, level):
        h = o.header
        out.append((level, type(o).__name__, h.type, h.version, h.id, bool(h.user), bool(h.extended),
                    bool(h.only_subobjects), h.content_size, h.content_address))
        if mode == 'iterate':
            return
        if h.only_subobjects:
            for s in o:
                visit(s, level + 1)
        elif mode == 'read':
            out.append(o.read())
        elif mode == 'read by 3':
            while True:
                b = o.read(3)
                out.append(b)
                if len(b) < 3:
                    break
        elif mode == 'seek forward':
            o.read(1)
            o.seek(max(o.tell(), h.content_size - 2))
            out.append(o.read())
        elif mode == 'parse':
            try:
                r = o.parse()
                if hasattr(r, '__next__'):
                    r = list(r)
                out.append(canon(r))
            except (NotImplementedError, ValueError) as e:
                out.append(type(e).__name__)

    try:
        with EventIOFile(path, **kw) as f:
            for o in f:
                visit(o, 0)
                if limit and o.address > limit:
                    return out
    except Exception as e:
        out.append('{}: {}'.format(type(e).__name__, e))
    return out


def compare(got, exp, what):
    if got == exp:
        return
    for i, (a, b) in enumerate(zip(got, exp)):
        if a != b:
            fail('{}: item {} is {} instead of {}', what, i, a, b)
    fail('{}: {} instead of {} items, last {}', what, len(got), len(exp), (got or [None])[-1])


# ------------------------------------------------------------------ every kind of object in all variants
_blocks = []


def blocks():
    if not _blocks:
        _blocks.extend(o for _, o, _ in catalogue.all_blocks())
    return _blocks


MODES = ['read', 'parse', 'iterate', 'seek forward', 'read by 3']


def gen_kinds(c):
    i = c.choose('block', len(blocks()), free=True)
    mode = c.choose('mode', MODES[:2], free=True)
    wrap = c.choose('inside', ['top level', 'container'], free=True)
    return i, mode, wrap


def run_kinds(cases, ctx):
    for i, mode, wrap in cases:
        o = blocks()[i]
        objs = [L.generic(3), o, L.generic(5)] if wrap == 'top level' else [L.box(L.generic(3), o), L.generic(5)]
        data = evio.build(objs)
        exp = None
        for variant in evio.VARIANTS:
            if variant in ('zcat', 'zcat2', 'gzip2') and (mode, wrap) != ('parse', 'container'):
                continue
            kw = evio.store('k.dat', data, variant)
            got = seen('k.dat', mode, kw)
            ctx.step()
            if exp is None:
                exp = got
                if isinstance(exp[-1], str) and ': ' in exp[-1]:
                    fail('plain, {} of {}: {}', mode, o, exp[-1])
            else:
                compare(got, exp, '{}, {} of {}'.format(variant, mode, o))
        ctx.state(data, mode)
        ctx.outcome(len(exp), mode)


# ------------------------------------------------------------------ real files
def gen_real(c):
    files = codec.resource_files(os.environ['MC_REPO'])
    p = c.choose('file', files, free=True)
    variant = c.choose('variant', PACKED, free=True)
    mode = c.choose('mode', ['read', 'parse', 'events'], free=True)
    return p, variant, mode


LIMIT = 6000000
_exp = {}


def real_events(path, kw):
    from eventio import IACTFile, SimTelFile
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for cls in (SimTelFile, IACTFile):
            out.append(cls.__name__)
            try:
                with cls(path, **kw) as f:
                    for i, e in enumerate(f):
                        out.append(canon(dict(e) if isinstance(e, dict) else e._asdict()))
                        if i >= 4:
                            break
                    if cls is SimTelFile:
                        out.append(canon([f.header, f.global_meta, f.telescope_meta, f.mc_run_headers, f.history,
                                           dict(f.telescope_descriptions)]))
                    else:
                        out.append(canon([f.header, bytes(f.input_card), f.telescope_positions]))
            except Exception as e:
                out.append('{}: {}'.format(type(e).__name__, e))
    return out


def run_real(cases, ctx):
    for path, variant, mode in cases:
        data = codec.content(path)
        if data is None:
            continue
        # everything in one long file would take too long: complete objects up to a limit
        end = 0
        for o in codec.complete_objs(data):
            end = o.end
            if end > LIMIT and mode != 'events':
                break
        data = data[:end]
        key = path, mode

        def look(p, kw):
            return real_events(p, kw) if mode == 'events' else seen(p, mode, kw)

        if key not in _exp:
            evio.store('real.dat', data, 'plain')
            _exp[key] = look('real.dat', {})
        kw = evio.store('real.dat', data, variant)
        compare(look('real.dat', kw), _exp[key], '{} as {}, {}'.format(os.path.basename(path), variant, mode))
        os.unlink('real.dat')
        ctx.step(len(_exp[key]))
        ctx.state(path, variant, mode)
        ctx.outcome(path, mode, len(_exp[key]))


# ------------------------------------------------------------------ pieces
def piece_objs():
    """a few objects, all header forms, every kind of primitive read"""
    return [L.mc_event(), L.box(L.photons(2), L.generic(0)), L.meta(), L.generic(6, ext=True), L.history_line(),
            L.box(L.tracking(3), L.box(L.pixel_list())), L.aux_digital(), L.input_card()]


_pieces = {}


def piece_case():
    if not _pieces:
        objs = piece_objs()
        data = evio.build(objs)
        borders = set()
        for o in objs:
            for s in o.walk():
                for b in (s.start, s.address, s.end):
                    borders.update((b - 1, b, b + 1))
        borders = sorted(b for b in borders if 0 < b < len(data))
        _pieces.update(objs=objs, data=data, borders=borders)
    return _pieces['objs'], _pieces['data'], _pieces['borders']


def gen_pairs(c):
    data = piece_case()[1]
    mode = c.choose('mode', ['parse', 'read by 3'], free=True)
    a = 1 + c.choose('first', len(data) - 2, free=True)
    b = a + 1 + c.choose('second', len(data) - 1 - a, free=True)
    return mode, '{},{}'.format(a, b)


def gen_pieces(c):
    objs, data, borders = piece_case()
    mode = c.choose('mode', MODES, free=True)
    how = c.choose('pieces', ['one split', 'two splits', 'single bytes'], free=True)
    if how == 'single bytes':
        at = 'all'
    elif how == 'one split':
        at = str(1 + c.choose('at', len(data) - 1, free=True))
    else:
        # the second split comes within the next two borders
        i = c.choose('first', len(borders) - 1, free=True)
        j = c.choose('second', min(3, len(borders) - 1 - i), free=True)
        at = '{},{}'.format(borders[i], borders[i + 1 + j])
    return mode, at


def shim_dir():
    d = os.path.abspath('shims')
    if not os.path.isdir(d):
        os.mkdir(d)
        r = subprocess.run(['gcc', '-O1', '-o', 'shims/gzip', os.path.join(os.path.dirname(__file__), '..', 'shim.c')],
                           capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('cannot build the stand-in for gzip: ' + r.stderr)
        for n in ('zcat', 'gunzip'):
            os.link('shims/gzip', 'shims/' + n)
    return d


class Environ:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = dict(os.environ)
        os.environ.update(self.kw)

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.old)


def run_pieces(cases, ctx):
    objs, data, _ = piece_case()
    d = shim_dir()
    real = shutil.which('gzip')
    with open('pieces.dat', 'wb') as f:
        f.write(data)
    with open('pieces.gz', 'wb') as f:
        f.write(gzip.compress(data))
    for mode, at in cases:
        if mode not in _exp:
            _exp[mode] = seen('pieces.dat', mode, {})
        with Environ(PATH=d + ':' + os.environ['PATH'], SPLIT_REAL=real, SPLIT_AT=at):
            got = seen('pieces.gz', mode, {})
        compare(got, _exp[mode], 'output of gzip split at {}, {}'.format(at, mode))
        ctx.step(len(got))
        ctx.state(mode, at)
        ctx.outcome(mode, len(got))


# ------------------------------------------------------------------ sizes
SIZES = [10, 0, 4095, 4096, 8191, 8192, 8193, 65535 - 16, 65536, 65537, 131071, 131072 + 5, 131075, 1 << 20,
         (1 << 20) + 1, 3000001]
ACCESS = ['read()', 'nothing', 'read(5)', 'read halves', 'seek to the last byte', 'read in 10000s']


def gen_sizes(n):
    def g(c):
        sizes = [c.choose('size', SIZES) for _ in range(n)]
        acts = [c.choose('access', ACCESS) for _ in range(n)]
        variant = c.choose('variant', PACKED + ['zst without size', 'zst 3 frames', 'gzip by program, 3 members'], free=True)
        kind = c.choose('content', ['noise', 'zeros'], free=True)
        return sizes, acts, variant, kind
    return g


_noise = []


def noise(n, k):
    if not _noise:
        x, b = 12345, bytearray()
        while len(b) < 3100000 + 4000:
            x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
            b += struct.pack('<Q', x ^ x >> 29)
        _noise.append(bytes(b))
    return _noise[0][k * 977:k * 977 + n]


def run_sizes(cases, ctx):
    from eventio import EventIOFile
    for sizes, acts, variant, kind in cases:
        payloads = [noise(n, i) if kind == 'noise' else bytes(n) for i, n in enumerate(sizes)]
        objs = [evio.Obj(60000 + i, p, ident=i) for i, p in enumerate(payloads)]
        data = evio.build(objs)
        kw = {}
        if variant == 'zst without size':
            with open('s.dat', 'wb') as f:
                f.write(evio.zst(data, size=False))
        elif variant == 'zst 3 frames':
            with open('s.dat', 'wb') as f:
                f.write(evio.zst_multi(data, [objs[0].end - 1, len(data) - 3]))
        elif variant.startswith('gzip by'):
            with open('s.dat', 'wb') as f:
                f.write(evio.gz_multi(data, [objs[0].end - 1, len(data) - 3]))
        else:
            kw = evio.store('s.dat', data, variant)
        what = '{}, {} of {} bytes of {}'.format(variant, acts, sizes, kind)
        with EventIOFile('s.dat', **kw) as f:
            for m, p, act in zip(objs, payloads, acts):
                o = next(f, None)
                if o is None:
                    fail('{}: ends before object {}', what, m)
                if (o.header.type, o.header.content_size, o.address) != (m.type, m.size, m.address):
                    fail('{}: {} instead of {}', what, o.header, m)
                if act == 'read()':
                    got, exp = o.read(), p
                elif act == 'read(5)':
                    got, exp = o.read(5), p[:5]
                elif act == 'read halves':
                    h = len(p) // 2
                    got, exp = o.read(h) + o.read(), p
                elif act == 'seek to the last byte':
                    o.seek(max(0, len(p) - 1))
                    got, exp = o.read(), p[-1:]
                elif act == 'read in 10000s':
                    got = b''
                    while True:
                        b = o.read(10000)
                        if not b:
                            break
                        got += b
                    exp = p
                else:
                    got = exp = None
                if got != exp:
                    fail('{}: {} gives {} bytes that are not the {} stored ones', what, act, len(got), len(exp))
                ctx.step()
            if next(f, None) is not None:
                fail('{}: object after the last one', what)
        ctx.state(tuple(sizes), tuple(acts), variant, kind)
        ctx.outcome(variant, tuple(sizes))


# ------------------------------------------------------------------ large objects
def gen_large(low, high):
    def g(c):
        k = c.choose('bits of the size', list(range(low, high + 1)), free=True)
        d = c.choose('more', [0, -1, 1, 12345], free=True)
        act = c.choose('access', ['nothing', 'read(5)', 'seek to the last byte', 'read()'], free=True)
        variant = c.choose('variant', ['gzip by program', 'gzip', 'zstd'], free=True)
        before = c.choose('before', [0, 5], free=True)
        return k, d, act, variant, before
    return g


def run_large(cases, ctx):
    import gzip
    from eventio import EventIOFile
    for k, d, act, variant, before in cases:
        n = (1 << k) + d
        tail = b'the last bytes of it'
        objs = [evio.Obj(60001, bytes(before))] * (before > 0) + [evio.Obj(60002, bytes(n - len(tail)) + tail), evio.Obj(60003, b'next')]
        data = evio.build(objs)
        kw = {'zcat': variant == 'gzip by program'}
        with open('large.dat', 'wb') as f:
            f.write(evio.zst(data) if variant == 'zstd' else gzip.compress(data, 1))
        del data
        what = '{}: {} of {} zeros'.format(variant, act, n)
        with EventIOFile('large.dat', **kw) as f:
            for m in objs:
                o = next(f, None)
                if o is None:
                    fail('{}: ends before object {}', what, m)
                if (o.header.type, o.header.content_size, o.address) != (m.type, m.size, m.address):
                    fail('{}: {} instead of {}', what, o.header, m)
                if act == 'read()':
                    got, exp = o.read(), m.payload
                elif act == 'read(5)':
                    got, exp = o.read(5), m.payload[:5]
                elif act == 'seek to the last byte':
                    o.seek(m.size - 1)
                    got, exp = o.read(), m.payload[-1:]
                else:
                    got = exp = None
                if got != exp:
                    fail('{}: {} bytes that are not the {} stored ones', what, len(got), len(exp))
                ctx.step()
            if next(f, None) is not None:
                fail('{}: object after the last one', what)
        os.remove('large.dat')
        ctx.state(k, d, act, variant, before)
        ctx.outcome(variant, k)


# ------------------------------------------------------------------ no way back
STREAM_OPS = [(o, act) for o in range(3) for act in ('read()', 'read(4)', 'seek(0)', 'seek(3)', 'seek end', 'seek back 2', 'parse')] \
    + ['next', 'file read 7', 'walk']


def gen_stream(n):
    def g(c):
        variant = c.choose('variant', ['zst', 'zcat', 'zst2', 'gzip', 'gzip2', 'plain'], free=True)
        ops = []
        have = 1
        for _ in range(n):
            o = c.choose('op', ['next', 'file read 7', 'walk']
                         + [x for x in STREAM_OPS if isinstance(x, tuple) and x[0] < have], free=True)
            ops.append(o)
            if o == 'next':
                have = min(3, have + 1)
        return variant, ops
    return g


_stream = {}


def run_stream(cases, ctx):
    from eventio import EventIOFile
    if not _stream:
        objs = [L.history_line(b'first entry'), L.box(L.mc_event(), L.generic(9)), L.history_line(b'third entry')]
        _stream.update(objs=objs, data=evio.build(objs))
    objs, data = _stream['objs'], _stream['data']
    for variant, ops in cases:
        path, kw = stored(data, variant)
        forward = not evio.seekable(variant)
        with EventIOFile(path, **kw) as f:
            out = [next(f)]
            pos = [0]                 # position within the objects
            p = out[0].address        # no byte beyond here has been needed so far
            done = []
            ended = False
            for op in ops:
                done.append(op)
                what = '{} {}'.format(variant, done)
                need = exp = None
                if op == 'next':
                    k = len(out)
                    if k == len(objs):
                        need, upto, exp = len(data), len(data), StopIteration
                    else:
                        need, upto, exp = objs[k].start, objs[k].address, objs[k]
                    def act():
                        return next(f)
                elif op == 'file read 7':
                    # where the file stands is not specified here, only that nothing is spoiled
                    def act():
                        f.read(7)
                    need, upto = 0, None
                elif op == 'walk':
                    if len(out) < 2:
                        done.pop()
                        continue
                    m = objs[1]
                    need, upto, exp = m.address, m.children[-1].address, m.children
                    def act():
                        return list(out[1])
                else:
                    k, a = op
                    if k >= len(out):
                        continue
                    o, m = out[k], objs[k]
                    if a == 'read()' or a == 'read(4)':
                        n = m.size - pos[k] if a == 'read()' else min(4, m.size - pos[k])
                        need, upto, exp = m.address + pos[k], m.address + pos[k] + n, m.payload[pos[k]:pos[k] + n]
                        def act():
                            return o.read() if a == 'read()' else o.read(4)
                    elif a == 'parse':
                        if m.sub:
                            continue
                        need, upto = m.address, m.end
                        exp = [1000, [b'first entry', None, b'third entry'][k]]
                        def act():
                            return list(o.parse())
                    else:
                        new = {'seek(0)': 0, 'seek(3)': 3, 'seek end': m.size, 'seek back 2': m.size - 2}[a]
                        need, upto, exp = m.address + new, m.address + new, new
                        def act():
                            return {'seek(0)': lambda: o.seek(0), 'seek(3)': lambda: o.seek(3),
                                    'seek end': lambda: o.seek(0, 2), 'seek back 2': lambda: o.seek(2, 2)}[a]()
                try:
                    got = act()
                except StopIteration:
                    got = StopIteration
                except Exception as e:
                    ctx.step()
                    if not forward or (p is not None and need >= p):
                        fail('{}: {!r} although no earlier byte is needed', what, e)
                    ctx.outcome(variant, type(e).__name__)
                    ended = True
                ctx.step()
                if ended:
                    break
                if upto is not None and p is not None:
                    p = max(p, upto) if forward else 0
                elif upto is None:
                    p = None if forward else 0
                if op == 'next':
                    if exp is StopIteration:
                        if got is not StopIteration:
                            fail('{}: object after the last one: {}', what, got)
                        continue
                    if got is StopIteration or (got.header.type, got.address, got.size) != (exp.type, exp.address, exp.size):
                        fail('{}: {} instead of {}', what, got, exp)
                    out.append(got)
                    pos.append(0)
                elif op == 'walk':
                    if 'walk' in done[:-1]:
                        exp = []
                    if [(x.header.type, x.address, x.size) for x in got] != [(x.type, x.address, x.size) for x in exp]:
                        fail('{}: {} instead of {}', what, got, exp)
                    pos[1] = None
                elif isinstance(op, tuple):
                    if got != exp:
                        fail('{}: {} instead of {}', what, got, exp)
                    if a.startswith('read'):
                        pos[k] += len(exp)
                    elif a.startswith('seek'):
                        pos[k] = new
                    else:
                        pos[k] = None
                if None in pos:
                    # where parsing or walking leaves an object is its own business
                    k = pos.index(None)
                    pos[k] = out[k].tell()
            ctx.state(variant, tuple(map(str, done)))


# ------------------------------------------------------------------ names, and no gzip program
NAMES = ['a.dat', 'a', '-a.gz', '--help', 'a b.gz', 'a\nb.gz', 'ä€.gz', 'a.Z', 'a.tgz', 'x.zst', 'x.simtel', "q'\".gz",
         'd/a.gz', '-d/-a', 'link', '$HOME', '*', 'a;b']


def gen_names(c):
    return (c.choose('name', NAMES, free=True), c.choose('variant', list(evio.VARIANTS), free=True),
            c.choose('given as', ['text', 'Path', 'absolute'], free=True),
            c.choose('gzip program', ['there', 'missing', 'not executable', 'fails'], free=True))


def run_names(cases, ctx):
    data = evio.build(piece_objs())
    for name, variant, given, program in cases:
        shutil.rmtree('names', ignore_errors=True)
        os.makedirs('names/path')
        if program == 'not executable':
            with open('names/path/gzip', 'w') as f:
                f.write('#!/bin/sh\n')
        elif program == 'fails':
            # as soon as it is started
            with open('names/path/gzip', 'w') as f:
                f.write('#!/nonexistent/interpreter\n')
            os.chmod('names/path/gzip', 0o755)
        search = os.environ['PATH'] if program == 'there' else os.path.abspath('names/path')
        os.chdir('names')
        try:
            if '/' in name:
                os.mkdir(os.path.dirname(name))
            if name == 'link':
                os.symlink('target-of-link', name)
            kw = evio.store(name, data, variant)
            if 'names' not in _exp:
                evio.store('reference', data, 'plain')
                _exp['names'] = seen('reference', 'parse', {})
            p = {'text': name, 'Path': pathlib.Path(name), 'absolute': os.path.abspath(name)}[given]
            with Environ(PATH=search):
                got = seen(p, 'parse', kw)
            compare(got, _exp['names'], 'name {!r} given as {}, {}, gzip program {}'.format(name, given, variant, program))
        finally:
            os.chdir('..')
        ctx.step()
        ctx.state(name, variant, given, program)
        ctx.outcome(len(got))


def parts(tier):
    q = tier == 'quick'
    return [
        Part('kinds', gen_kinds, run_kinds, batch=8, note='one block of every kind and version, at top level and nested, all storage variants'),
        Part('real files', gen_real, run_real, batch=1, note='all resource files in all storage variants: headers and payloads, parsed contents, events'),
        Part('pieces', gen_pieces, run_pieces, batch=4,
             note='output of gzip split at every byte, at pairs of object borders, and into single bytes, in {} access modes'.format(len(MODES))),
        *([] if q else [Part('pairs of pieces', gen_pairs, run_pieces, batch=16, note='output of gzip split at every pair of bytes')]),
        Part('large', gen_large(20, 26 if q else 28), run_large, batch=2,
             note='objects of 1 to {} MiB and around powers of two, skipped or read'.format(64 if q else 512)),
        Part('sizes', gen_sizes(2 if q else 3), run_sizes, bound=2 if q else 3, batch=4,
             note='payload sizes around buffer sizes with access patterns, all storage variants'),
        Part('no way back', gen_stream(3 if q else 4), run_stream, batch=16, note='all sequences of {} accesses to three objects'.format(3 if q else 4)),
        Part('names', gen_names, run_names, batch=8, note='file names, kinds of path, and a missing or unusable gzip program'),
    ]
