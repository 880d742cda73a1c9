"""C08: event readers lose and alter no complete event of a truncated file."""
import os
import warnings

from .. import codec, evio, events as E
from ..common import AnyOf, check_same, differ, fail, same
from ..engine import Part
from . import c26, c27

TECHNIQUE = ('exhaustive enumeration of crash points: every cut position of generated files, every block boundary of real '
             'ones, on the real event readers, compared with the events of the uncut file')
ASSUMPTIONS = c27.ASSUMPTIONS + [
    'what the one incomplete event holds is not claimed, except that it is part of what the complete event holds',
    'a warning is required where bytes are missing that belong to the contents of a block or to its header, not for padding',
    'where compressed bytes were cut only the prefix property is claimed, and reading may end with an error of the decompressor',
]

SLICES = 12

# ------------------------------------------------------------------ which cuts
def structure(blocks):
    """positions at and around the bounds of all objects and headers"""
    out = set()
    base = 0
    for b in blocks:
        b.obj.build()
        for o in b.obj.walk():
            for p in (o.start, o.address, o.end):
                out.update((base + p - 1, base + p, base + p + 1))
            out.add(base + (o.address + o.end) // 2)
        base += len(b.data)
    return sorted(p for p in out if 0 <= p <= base)


_positions = {}


def cuts_of(blocks, how):
    n = sum(len(b.data) for b in blocks)
    if how == 'all':
        return range(n, -1, -1)
    key = tuple(map(id, blocks))
    if key not in _positions:
        if len(_positions) > 50:
            _positions.clear()
        _positions[key] = structure(blocks)[::-1], blocks
    return _positions[key][0]


def slice_of(cuts, k, n):
    return cuts[len(cuts) * k // n:len(cuts) * (k + 1) // n]


# ------------------------------------------------------------------ sim_telarray
OWN = ('mc event', 'array event', 'calibration event', 'telescope data', 'mc photoelectron sum')


def ends(blocks, start):
    """for every event: number of leading blocks that hold all of its data"""
    starts = E._starts(blocks, start)
    stop = next((i for i, b in enumerate(blocks) if b.kind == 'histograms'), len(blocks))
    return [max(k for k in range(i, j) if blocks[k].kind in OWN) + 1 for i, j in zip(starts, starts[1:] + [stop])]


def part_of(got, full):
    """an incomplete event holds nothing that is not in the complete one"""
    for key, v in got.items():
        if key not in full:
            return False
        e = full[key]
        if isinstance(e, E.Optional):
            e = e.value
        if not differ(v, e):
            continue
        for x in e.options if isinstance(e, AnyOf) else [e]:
            if isinstance(x, dict) and isinstance(v, dict) and all(k in x and not differ(v[k], x[k]) for k in v):
                break
        else:
            return False
    return True


def skipped(e, options):
    if e['type'] == 'data':
        return options['skip_non_triggered'] and not e.get('telescope_events')
    return options['skip_calibration']


OPTIONS = [dict(skip_non_triggered=a, skip_calibration=b, allowed_telescopes=t)
           for a in (True, False) for b in (False, True) for t in (None, (2,))]
FULL = OPTIONS.index(dict(skip_non_triggered=False, skip_calibration=False, allowed_telescopes=None))


def size(b):
    return len(b.data) if b.data is not None else b.obj.end - b.obj.start


class Expected:
    def __init__(self, blocks, start, options):
        self.events = E.simtel_events(blocks, start, options['allowed_telescopes'], False)
        self.ends = ends(blocks, start)
        self.bounds = [0]
        for b in blocks:
            self.bounds.append(self.bounds[-1] + size(b))
        self.kinds = [b.kind for b in blocks]
        if len(self.ends) != len(self.events):
            raise AssertionError('{} {}'.format(len(self.ends), len(self.events)))


_expected = {}


def expected_for(blocks, start, k):
    key = tuple(map(id, blocks)), k
    if key not in _expected:
        if len(_expected) > 20:
            _expected.clear()
        _expected[key] = Expected(blocks, start, OPTIONS[k]), blocks
    return _expected[key][0]


def check_simtel(path, kw, x, start, options, cut, what, ctx, whole=True):
    """whole: the first `cut` bytes are there, else anything less"""
    from eventio import SimTelFile
    with warnings.catch_warnings(record=True) as caught_warnings:
        warnings.simplefilter('always')
        try:
            f = SimTelFile(path, **options, **kw)
        except EOFError:
            if whole and cut >= x.bounds[start]:
                fail('{}: EOFError although the whole header part is there', what)
            ctx.outcome('refused')
            return
        except Exception as e:
            if whole and cut >= 4:
                fail('{}: {!r} instead of EOFError', what, e)
            return
        if cut < x.bounds[start]:
            f.close()
            fail('{}: opened although descriptions are missing', what)
        got = []
        ended = None
        with f:
            while ended is None:
                try:
                    got.append(next(f))
                except StopIteration:
                    ended = 'end'
                except Exception as e:
                    if whole:
                        fail('{}: after {} events: {!r}', what, len(got), e)
                    ended = type(e).__name__
                ctx.step()
            if ended == 'end':
                for _ in range(2):
                    if next(f, None) is not None:
                        fail('{}: an event after the end', what)
    n_blocks = next(i for i in range(len(x.bounds) - 1, -1, -1) if x.bounds[i] <= cut)
    complete = [i for i, e in enumerate(x.ends) if e <= n_blocks]
    n = len(complete)
    must = [e for e in x.events[:n] if not skipped(e, options)]
    for k, (a, e) in enumerate(zip(got, must)):
        e = E.resolve(e, a)
        if not same(a, e):
            if not whole and k == len(got) - 1 and part_of(a, e):
                continue
            check_same(a, e, '{}: event {}'.format(what, k))
    if len(got) < len(must) and whole:
        fail('{}: only {} events instead of {}, blocks {}', what, len(got), len(must), x.kinds[start:n_blocks])
    if len(got) > len(must):
        if len(got) > len(must) + 1 or n == len(x.events):
            fail('{}: {} events instead of {}', what, len(got), len(must))
        if not part_of(got[-1], x.events[n]):
            fail('{}: the incomplete event is not part of the complete one: {} vs {}', what, got[-1], x.events[n])
        if skipped(got[-1], options):
            fail('{}: the incomplete event should have been skipped: {}', what, got[-1])
    warned = any(not w.category.__name__.startswith('UnknownObject') for w in caught_warnings)
    if whole and not warned:
        # block that was cut
        if n_blocks < len(x.kinds) and not (n_blocks and 'histograms' in x.kinds[:n_blocks]):
            missing = x.bounds[n_blocks + 1] - cut
            there = cut - x.bounds[n_blocks]
            if there and missing > 3 and not options['allowed_telescopes'] and x.kinds[n_blocks] not in ('generic', 'unknown'):
                fail('{}: no warning, although {} is incomplete: {} bytes missing', what, x.kinds[n_blocks], missing)
    ctx.outcome('opened', ended, len(got) - len(must), len(must), warned)


RICH = {'calibration events': 2, 'calibration monitoring': 'all', 'calibration photo-electrons': 'two', 'particles': 1,
        'telescope data': 'both', 'first monitoring': 'with pixels', 'monitoring again': 1, 'photo-electron sum': 1, 'histograms': 1}


class Prefer:
    """another choice is the default one"""

    def __init__(self, c, values):
        self.c = c
        self.values = values

    def choose(self, name, options, free=False):
        options = list(range(options)) if isinstance(options, int) else list(options)
        v = self.values.get(name)
        if v in options:
            options.remove(v)
            options.insert(0, v)
        return self.c.choose(name, options, free)

    def flag(self, name, free=False):
        return bool(self.choose(name, 2, free))


def gen_simtel(shape, how, variants, options, free=True, prefer=()):
    def g(c):
        k = c.choose('options', options, free=free)
        variant = c.choose('variant', variants, free=free)
        h = c27.header()
        body = c27.body(Prefer(c, dict(prefer)), shape)
        return h + body, len(h), k, variant, how, c.choose('slice', SLICES, free=True)
    return g


def run_simtel(cases, ctx):
    for blocks, start, k, variant, how, part in cases:
        x = expected_for(blocks, start, k)
        data = E.content(blocks)
        what = '{} {} {}'.format(variant, OPTIONS[k], blocks[start:])
        path, kw = 'cut.dat', {}
        if variant == 'plain':
            with open(path, 'wb') as f:
                f.write(data)
        for cut in slice_of(cuts_of(blocks, how), part, SLICES):
            if variant == 'plain':
                os.truncate(path, cut)
            elif cut == 0:
                continue
            else:
                kw = evio.store(path, data[:cut], variant)
            check_simtel(path, kw, x, start, OPTIONS[k], cut, '{} cut after {} of {} bytes'.format(what, cut, len(data)), ctx)
            ctx.state(what, cut)


# ------------------------------------------------------------------ CORSIKA
class IactExpected:
    def __init__(self, blocks, start):
        self.events = E.iact_events(blocks, start)
        self.bounds = [0]
        for b in blocks:
            self.bounds.append(self.bounds[-1] + size(b))
        self.kinds = [b.kind for b in blocks]
        # events per shower, by the number of events up to an end block
        self.upto = {}
        done = 0
        for i, b in enumerate(blocks):
            if b.kind == 'event end':
                head = max(k for k in range(i) if blocks[k].kind == 'event header')
                done += len(blocks[head + 1].value[1]['x'].a)
                self.upto[i + 1] = done
        if done != len(self.events):
            raise AssertionError('{} {}'.format(done, len(self.events)))


_iact = {}


def iact_expected(blocks, start):
    key = tuple(map(id, blocks))
    if key not in _iact:
        if len(_iact) > 20:
            _iact.clear()
        _iact[key] = IactExpected(blocks, start), blocks
    return _iact[key][0]


def check_iact(path, kw, x, start, cut, what, ctx, whole=True):
    from eventio import IACTFile
    try:
        f = IACTFile(path, **kw)
    except EOFError:
        if whole and cut >= x.bounds[start]:
            fail('{}: EOFError although the whole header part is there', what)
        ctx.outcome('refused')
        return
    except Exception as e:
        if whole and cut >= 4:
            fail('{}: {!r} instead of EOFError', what, e)
        return
    if cut < x.bounds[start]:
        f.close()
        fail('{}: opened although header blocks are missing', what)
    got = []
    ended = None
    with f:
        it = iter(f)
        while ended is None:
            try:
                got.append(next(it))
            except StopIteration:
                ended = 'end'
            except EOFError:
                ended = 'EOFError'
            except Exception as e:
                if whole:
                    fail('{}: after {} events: {!r}', what, len(got), e)
                ended = type(e).__name__
            ctx.step()
    n = max([d for i, d in x.upto.items() if x.bounds[i] <= cut], default=0)
    if len(got) > n or len(got) < n and whole:
        fail('{}: {} events instead of {}', what, len(got), n)
    for k, (a, e) in enumerate(zip(got, x.events)):
        check_same(a._asdict(), e, '{}: event {}'.format(what, k))
    if ended == 'end' and cut < x.bounds[-1]:
        fail('{}: a normal end although the run end is missing', what)
    if whole and ended != 'end' and cut >= x.bounds[-1]:
        fail('{}: {} of a complete file', what, ended)
    ctx.outcome(ended, len(got), n)


def gen_iact(showers, how, variants, profile=(0, 1)):
    def g(c):
        n = c.choose('showers', showers, free=True)
        blocks = E.iact_header(2, c.choose('profile', profile, free=True))
        start = len(blocks)
        for k in range(n):
            blocks = blocks + c26.shower(c, k, k > 0)
        blocks.append(E.run_end())
        return blocks, start, c.choose('variant', variants, free=True), how, c.choose('slice', 4, free=True)
    return g


def run_iact(cases, ctx):
    for blocks, start, variant, how, part in cases:
        x = iact_expected(blocks, start)
        data = E.content(blocks)
        what = '{} {}'.format(variant, blocks)
        path, kw = 'cut.dat', {}
        if variant == 'plain':
            with open(path, 'wb') as f:
                f.write(data)
        for cut in slice_of(cuts_of(blocks, how), part, 4):
            if variant == 'plain':
                os.truncate(path, cut)
            elif cut == 0:
                continue
            else:
                kw = evio.store(path, data[:cut], variant)
            check_iact(path, kw, x, start, cut, '{} cut after {} of {} bytes'.format(what, cut, len(data)), ctx)
            ctx.state(what, cut)


# ------------------------------------------------------------------ cut compressed bytes
COMPRESSED = ('gzip', 'zcat', 'zst', 'gzip2', 'zcat2', 'zst2')


def gen_compressed(step):
    def g(c):
        kind = c.choose('kind', ('sim_telarray', 'CORSIKA'), free=True)
        variant = c.choose('variant', COMPRESSED, free=True)
        return kind, variant, c.choose('slice', SLICES, free=True), step
    return g


def run_compressed(cases, ctx):
    from ..engine import Chooser
    for kind, variant, part, step in cases:
        c = Chooser()
        if kind == 'CORSIKA':
            blocks = E.iact_header(2)
            start = len(blocks)
            blocks = blocks + c26.shower(c, 0, True) + c26.shower(c, 1, True) + [E.run_end()]
            x = iact_expected(blocks, start)
        else:
            h = c27.header()
            start = len(h)
            blocks = h + c27.body(Prefer(c, RICH), c27.Shape(calib=1, showers=1, reuses=2))
            x = expected_for(blocks, start, FULL)
        data = E.content(blocks)
        kw = evio.store('cut.dat', data, variant)
        with open('cut.dat', 'rb') as f:
            raw = f.read()
        cuts = range(len(raw) - 1, 5, -step)
        for cut in slice_of(cuts, part, SLICES):
            os.truncate('cut.dat', cut)
            what = '{} {} cut after {} of {} compressed bytes'.format(kind, variant, cut, len(raw))
            if kind == 'CORSIKA':
                check_iact('cut.dat', kw, x, start, len(data), what, ctx, whole=False)
            else:
                check_simtel('cut.dat', kw, x, start, OPTIONS[FULL], len(data), what, ctx, whole=False)
            ctx.state(what)


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return (c.choose('file', files, free=True), c.choose('slice', 4, free=True)) if files else None
    return g


_real = {}


def real_blocks(path):
    if path not in _real:
        _real.clear()
        _real[path] = c27.real_blocks(path, 3000000)
    return _real[path]


def run_real(cases, ctx):
    for case in cases:
        rb = real_blocks(case[0]) if case else None
        if rb is None:
            continue
        path, part = case
        blocks, start = rb
        x = expected_for(blocks, start, FULL)
        data = codec.content(path)[:x.bounds[-1]]
        with open('real.dat', 'wb') as f:
            f.write(data)
        cuts = {0, 1, len(data)}
        for i, b in enumerate(x.bounds):
            if i >= start - 2:
                cuts.update((b - 1, b, b + 1, b + 15, b + 17))
                if i + 1 < len(x.bounds):
                    cuts.add((b + x.bounds[i + 1]) // 2)
        cuts = sorted((p for p in cuts if 0 <= p <= len(data)), reverse=True)
        if len(cuts) > 400:
            cuts = cuts[-400:]
        for cut in slice_of(cuts, part, 4):
            os.truncate('real.dat', cut)
            check_simtel('real.dat', {}, x, start, OPTIONS[FULL], cut, '{} cut after {} bytes'.format(path, cut), ctx)
            ctx.state(path, cut)


def run_truncated(cases, ctx):
    """a real file that was cut: the events of its complete blocks"""
    from eventio import SimTelFile
    for path in cases:
        if not path or not os.path.exists(path):
            continue
        data = codec.content(path)
        blocks = E.from_file(data)
        start = next(i for i, b in enumerate(blocks) if b.kind in ('camera monitoring', 'calibration event', 'mc shower'))
        x = Expected(blocks, start, OPTIONS[FULL])
        for name, kw in ((path, {'zcat': True}), (path, {'zcat': False})):
            check_simtel(name, kw, x, start, OPTIONS[FULL], x.bounds[-1], name, ctx)
            ctx.state(name, str(kw))


def gen_truncated(c):
    return os.path.join(os.environ['MC_REPO'], 'tests/resources/test_lasercal_v3.simtel.gz')


def parts(tier):
    q = tier == 'quick'
    S = c27.Shape
    full = S(calib=2, showers=2, reuses=2, unknown=False)
    return [
        Part('every byte', gen_simtel(full, 'all', ['plain'], [FULL, 0], prefer=RICH), run_simtel, bound=0 if q else 1, batch=1,
             note='all cut positions of a file with calibration and data events'),
        Part('bare calibration', gen_simtel(S(calib=2, showers=1, reuses=1, unknown=False, free=('calib', 'bare')), 'structure', ['plain'],
                                            [FULL]), run_simtel, bound=1 if q else 2, batch=1,
             note='calibration events of both kinds, cuts around the bounds of every object'),
        Part('forms of events', gen_simtel(S(calib=1, showers=1, reuses=2), 'structure', ['plain'], [FULL], prefer=RICH), run_simtel,
             bound=1 if q else 2, batch=1, note='deviating files, cuts around the bounds of every object'),
        Part('selections', gen_simtel(S(calib=1, showers=1, reuses=1), 'structure', ['plain'], list(range(len(OPTIONS)))),
             run_simtel, bound=1 if q else 2, batch=1, note='all selections'),
        Part('storage', gen_simtel(S(calib=1, showers=1, reuses=1), 'structure', ['gzip', 'zst', 'zcat'], [FULL]),
             run_simtel, bound=1 if q else 2, batch=1, note='cut contents, compressed'),
        Part('CORSIKA, every byte', gen_iact([2] if q else [0, 1, 2], 'all', ['plain'], [1] if q else [0, 1]), run_iact, bound=0 if q else 1, batch=1,
             note='all cut positions'),
        Part('CORSIKA', gen_iact([0, 1] if q else [0, 1, 2], 'structure', ['plain'] if q else ['plain', 'gzip', 'zst', 'zcat']), run_iact,
             bound=1, batch=1, note='deviating files, cuts around the bounds of every object'),
        Part('cut compressed bytes', gen_compressed(7 if q else 1), run_compressed, batch=1,
             note='every {}compressed byte'.format('7th ' if q else '')),
        Part('real files', gen_real(400000 if q else None), run_real, batch=1, note='all block boundaries of real files'),
        Part('truncated real file', gen_truncated, run_truncated, batch=1),
    ]
