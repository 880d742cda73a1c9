"""C31: cutting a file keeps exactly the leading complete objects."""
import gzip
import os
import re
import shutil

from .. import codec, evio, layouts as L, script
from ..common import fail
from ..engine import Part

TECHNIQUE = 'exhaustive enumeration of size limits, size texts, storage variants and truncations on the real tool'
ASSUMPTIONS = ['where not even one object fits the tool may fail or write an empty file',
               'the tool runs in process through its console entry point']

LAYOUTS = [
    lambda: [L.mc_event(), L.generic(20), L.generic(0), L.box(L.photons(2), L.generic(7)), L.input_card(b'abc'), L.generic(3)],
    lambda: [L.generic(5, ext=True), L.box(L.box(L.generic(4, ext=True)), ext=True), L.generic(0), L.generic(0), L.meta()],
    lambda: [L.generic(1)],
    lambda: [L.generic(300), L.generic(0), L.generic(1000), L.generic(700)],
]
_layouts = {}


def layout(i):
    if i not in _layouts:
        objs = LAYOUTS[i]()
        _layouts[i] = objs, evio.build(objs)
    return _layouts[i]


def expected(objs, have, limit):
    n = 0
    for o in objs:
        if o.end > limit or o.end > have:
            break
        n = o.end
    return n


def content(path):
    with open(path, 'rb') as f:
        b = f.read()
    if path.endswith('.gz'):
        if not b.startswith(b'\x1f\x8b'):
            fail('{} is not compressed', path)
        b = gzip.decompress(b)
    return b


def last_type(objs, n):
    return next((o.type for o in objs[::-1] if o.end <= n), None)


def check(what, source, out, text, want, original, ctx, last=None):
    if os.path.exists(out):
        os.remove(out)
    r = script.run('cut_eventio_file', source, out, text)
    ctx.step()
    if r.error is not None:
        if want or not isinstance(r.error, Exception) and not isinstance(r.error, SystemExit):
            fail('{}: {!r}', what, r.error)
    else:
        got = content(out)
        if got != want:
            fail('{}: wrote {} bytes instead of {}{}', what, len(got), len(want),
                 '' if want.startswith(got) or got.startswith(want) else ', and others')
        if want and last is not None:
            words = re.findall(r'[0-9.]*[0-9]', r.out)
            size = '{:.2f}'.format(len(want) / 1024 ** 2)
            if size not in words or str(last) not in words:
                fail('{}: {} MB with a last object of type {} are reported as {!r}', what, size, last, r.out)
    with open(source, 'rb') as f:
        if f.read() != original:
            fail('{}: the input was changed', what)
    ctx.outcome(r.error is None, len(want), r.warned)


def gen_limits(variants, outputs):
    def g(c):
        i = c.choose('layout', 3, free=True)
        n = len(layout(i)[1])
        return (i, c.choose('limit', n + 20, free=True), c.choose('variant', variants, free=True),
                c.choose('output', outputs, free=True))
    return g


def run_limits(cases, ctx):
    for i, limit, variant, out in cases:
        objs, data = layout(i)
        name = 'in.' + ('dat' if variant == 'plain' else variant)
        evio.store(name, data, variant)
        with open(name, 'rb') as f:
            original = f.read()
        n = expected(objs, len(data), limit)
        check('layout {} stored as {}, limit {}, to {}'.format(i, variant, limit, out), name, out, str(limit), data[:n], original, ctx,
              last_type(objs, n))
        ctx.state(i, limit, variant, out)


# ------------------------------------------------------------------ truncated files
def gen_cut(variants):
    def g(c):
        i = c.choose('layout', 2, free=True)
        n = len(layout(i)[1])
        return (i, 4 + c.choose('cut', n - 4, free=True), c.choose('limit', ('huge', 'at the cut', 'half'), free=True),
                c.choose('variant', variants, free=True))
    return g


def run_cut(cases, ctx):
    for i, cut, limit, variant in cases:
        objs, data = layout(i)
        limit = {'huge': 10 ** 12, 'at the cut': cut, 'half': cut // 2}[limit]
        name = 'cut.' + ('dat' if variant == 'plain' else variant)
        evio.store(name, data[:cut], variant)
        with open(name, 'rb') as f:
            original = f.read()
        n = expected(objs, cut, limit)
        check('layout {} stored as {}, cut after {} of {}, limit {}'.format(i, variant, cut, len(data), limit),
              name, 'out.dat', str(limit), data[:n], original, ctx,
              last_type(objs, n))
        ctx.state(i, cut, limit, variant)


# ------------------------------------------------------------------ texts
UNITS = {'': 1, 'k': 1024, 'M': 1024 ** 2, 'G': 1024 ** 3}


def sized(total):
    """a file of objects, the last but one of which ends at `total`"""
    first = [L.generic(10), L.generic(50)]
    done = len(evio.build(first))
    rest = total - done
    return first + [evio.Obj(60000, bytes(range(256)) * ((rest - 16) // 256) + bytes((rest - 16) % 256)), L.generic(0)]


def gen_units(unit_list, factors):
    def g(c):
        u = c.choose('unit', unit_list, free=True)
        return (u, c.choose('factor', [f for f in factors if f < 10 or u != 'M'], free=True),
                c.choose('off by', (-1, 0, 1, 16, -16), free=True), c.choose('zeros', ('', '0', '00'), free=True))
    return g


def run_units(cases, ctx):
    for unit, factor, off, zeros in cases:
        total = UNITS[unit] * factor + off
        if total < 100:
            continue
        objs = sized(total)
        data = evio.build(objs)
        with open('units.dat', 'wb') as f:
            f.write(data)
        n = expected(objs, len(data), UNITS[unit] * factor)
        check('{}{}{} of {} bytes'.format(zeros, factor, unit, len(data)), 'units.dat', 'out.dat', zeros + str(factor) + unit,
              data[:n], data, ctx, last_type(objs, n))
        ctx.state(unit, factor, off, zeros)


BAD = ['', 'k', 'M', 'G', '1K', '1m', '1g', '1.5k', '1.5', '.5M', '1 k', ' 1k', '1k ', '1kk', '1kM', '1T', '1e3', '0x10', '1b', '1kB',
       '1kb', '1MB', '1Mi', '1,000', '1_000', '+1', 'k1', '1k1', 'abc', '1k\n', '1\n', '1-', '1/2', '٣x', '1G1', 'inf', 'nan', '1P', '1t']


def gen_bad(c):
    return c.choose('text', BAD, free=True), c.choose('output', ('bad.dat', 'bad.dat.gz'), free=True)


def run_bad(cases, ctx):
    objs, data = layout(0)
    for text, out in cases:
        with open('in.dat', 'wb') as f:
            f.write(data)
        for before in (None, b'kept'):
            if os.path.exists(out):
                os.remove(out)
            if before:
                with open(out, 'wb') as f:
                    f.write(before)
            r = script.run('cut_eventio_file', 'in.dat', out, text)
            ctx.step()
            if r.error is None:
                fail('size {!r} is accepted', text)
            if before is None and os.path.exists(out) or before and open(out, 'rb').read() != before:
                fail('size {!r} is refused, but {} is written', text, out)
        ctx.state(text, out)
        ctx.outcome(type(r.error).__name__)


# ------------------------------------------------------------------ names of outputs
OUTPUTS = ['out.gz', 'out.dat.gz', 'out.simtel', 'out.gz.dat', 'gz', 'outgz', 'x.gzip', '.gz', 'out.zst.gz']


def gen_outputs(c):
    return c.choose('output', OUTPUTS, free=True), c.choose('input', ('plain', 'gzip', 'zst'), free=True), \
        c.choose('there before', (0, 1), free=True)


def run_outputs(cases, ctx):
    objs, data = layout(0)
    n = expected(objs, len(data), 100)
    for out, variant, before in cases:
        name = 'in.' + variant
        evio.store(name, data, variant)
        os.makedirs('outputs', exist_ok=True)
        path = os.path.join('outputs', out)
        if before:
            with open(path, 'wb') as f:
                f.write(b'x' * 5000)
        r = script.run('cut_eventio_file', name, path, '100')
        if r.error is not None:
            fail('{}: {!r}', out, r.error)
        if content(path) != data[:n]:
            fail('{}: wrong contents', out)
        if os.listdir('outputs') != [out]:
            fail('{}: files {} were written', out, os.listdir('outputs'))
        shutil.rmtree('outputs')
        ctx.step()
        ctx.state(out, variant, before)
        ctx.outcome(out.endswith('.gz'))


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return (c.choose('file', files, free=True), c.choose('which', 12, free=True)) if files else None
    return g


_real = {}


def run_real(cases, ctx):
    for case in cases:
        if not case:
            continue
        path, k = case
        data = codec.content(path)
        if data is None:
            continue
        objs = codec.complete_objs(data)
        if not objs:
            continue
        end = objs[len(objs) * (k // 4 + 1) // 3 - 1].end
        limit = end + (-1, 0, 1, 1 << 40)[k % 4]
        n = expected(objs, len(data), limit)
        with open(path, 'rb') as f:
            original = f.read()
        check('{} limit {}'.format(path, limit), path, 'real.dat', str(limit), data[:n], original, ctx,
              last_type(objs, n))
        ctx.state(path, k)


# ------------------------------------------------------------------ G
def gen_giga(offs):
    def g(c):
        return c.choose('off by', offs, free=True)
    return g


def run_giga(cases, ctx):
    """the unit G needs a file of that size"""
    from .. import big
    total = 1 << 30
    for off in cases:
        with open('giga.dat', 'wb') as f:
            pos = 0
            for i in range(8):
                size = (1 << 27) - 16 + (off if i == 7 else 0)
                f.seek(pos)
                f.write(evio.head(60000, 0, 5, size))
                pos += 16 + size
            f.truncate(pos)
            f.seek(pos)
            f.write(evio.build([L.generic(4)]))
        if os.path.exists('giga.out'):
            os.remove('giga.out')
        r = script.run('cut_eventio_file', 'giga.dat', 'giga.out', '1G')
        want = total if not off else total - (1 << 27)
        if r.error is not None or os.path.getsize('giga.out') != want:
            fail('1G of a file of {} bytes and more: {} bytes, {!r}', total, os.path.getsize('giga.out'), r.error)
        for n in ('giga.dat', 'giga.out'):
            os.remove(n)
        ctx.step()
        ctx.state(off)
        ctx.outcome(want)


def parts(tier):
    q = tier == 'quick'
    stored = ['plain', 'gzip', 'zst', 'zcat'] if q else ['plain', 'gzip', 'zst', 'zcat', 'gzip2', 'zst2', 'zcat2']
    out = [
        Part('limits', gen_limits(stored, ['out.dat', 'out.dat.gz']), run_limits, batch=8, note='every limit up to and past the end'),
        Part('truncated', gen_cut(['plain', 'gzip'] if q else ['plain', 'gzip', 'zst', 'zcat']), run_cut, batch=8, note='every cut position'),
        Part('units', gen_units(['', 'k', 'M'], [1, 2, 3, 7, 100, 1024] if q else list(range(1, 20)) + [100, 1000, 1024]), run_units, batch=4,
             note='file ends around the limits'),
        Part('bad sizes', gen_bad, run_bad, batch=1),
        Part('outputs', gen_outputs, run_outputs, batch=1),
        Part('real files', gen_real(1000000 if q else None), run_real, batch=1),
    ]
    out.append(Part('gigabytes', gen_giga([0] if q else [0, 1]), run_giga, batch=1, note='files of 1 GiB'))
    return out
