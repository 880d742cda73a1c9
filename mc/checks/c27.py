"""C27: sim_telarray events are assembled exactly."""
import os

from .. import codec, evio, events as E
from ..common import fail, stored, caught, check_same, same
from ..engine import Part

TECHNIQUE = ('bounded exhaustive exploration of the documented block grammar on the real SimTelFile, every event compared '
             'with a reference assembler that cuts the whole list of blocks into events')
ASSUMPTIONS = ['the contents of single blocks follow the reference layouts decided by C17-C25',
               'array events of delivered events carry the tracking position of each telescope event, as documented']

TELS = (1, 2)


# ------------------------------------------------------------------ generating files
class Shape:
    """what the choices of a part are about"""

    def __init__(self, calib=2, showers=2, reuses=2, variants=('plain',), free=(), pieces=False, unknown=True, flags=True):
        self.__dict__.update(locals())

    def is_free(self, name):
        return name in self.free


def array_event(c, s, ident, tag, name, pieces=False):
    """an array event in one of its documented forms"""
    ids = c.choose(name + ' ids', ('all', 'trigger id 0', 'array id other'))
    tels = c.choose(name + ' telescopes', ((1, 2), (1,), (2,), (), (2, 1), (105, 2)), s.is_free('telescopes'))
    track = c.choose(name + ' tracking', ('all', 'needed', 'before'))
    sub = ('header', 'sums', 'list', 'list2', 'digital', 'analog')
    if pieces:
        sub = [p for p in E.PIECES if p == 'header' or not c.flag('without ' + p)]
        if c.flag('reversed'):
            sub = sub[:1] + sub[:0:-1]
    trigger = E.trigger_information(0 if ids == 'trigger id 0' else ident, tels, tels, tag)
    telescopes = [E.telescope_event(t, tuple(sub), tag, ident) for t in tels]
    tracking = [E.tracking(t, tag) for t in (sorted(set(TELS) | set(tels)) if track != 'needed' else tels)]
    stereo = E.stereo(tag) if c.choose(name + ' stereo', (1, 0)) else None
    if track == 'before':
        parts = [trigger, *tracking, *telescopes] + ([stereo] if stereo else [])
        return E.group('array event', 2010, parts, ident if ids != 'array id other' else ident + 7)
    return E.array_event(ident if ids != 'array id other' else ident + 7, trigger, telescopes, tracking, stereo)


def monitoring(c, tag, name):
    """camera monitoring and laser calibration of all telescopes"""
    how = c.choose(name, ('none', 'all', 'one', 'with pixels'))
    out = []
    if how == 'none':
        return out
    for t in TELS[:1] if how == 'one' else TELS:
        out.append(E.camera_monitoring(t, tag))
        out.append(E.laser_calibration(t, tag))
        if how == 'with pixels':
            out.append(E.pixel_monitoring(t, tag))
    return out


def body(c, s):
    out = []
    if s.calib:
        n = c.choose('calibration events', s.calib + 1, s.is_free('calib'))
        bare = c.flag('bare array events', s.is_free('bare')) if n else 0
        if n:
            out += monitoring(c, 1, 'calibration monitoring')
        for i in range(n):
            a = array_event(c, s, i + 1, 40 + i, 'calibration')
            if bare:
                out.append(a)
            else:
                pe = c.choose('calibration photo-electrons', ('none', 'one', 'two'))
                if pe != 'none':
                    out.append(E.calibration_pe([E.photoelectrons(t, i) for t in TELS[:1 + (pe == 'two')]]))
                out.append(E.calibration_event(a, c.choose('kind', (0, 1, 2, 3, -1))))
    m = c.choose('showers', (s.showers, *range(s.showers)), s.is_free('showers'))
    first = True
    for k in range(1, m + 1):
        out.append(E.shower(k))
        p = c.choose('particles', (0, 1, 2))
        if p:
            out.append(E.particles(k, p + 1))
        r = c.choose('reuses', (s.reuses, *range(s.reuses)), s.is_free('reuses'))
        for j in range(r):
            ident = 100 * k + j
            out.append(E.mc_event(ident))
            td = c.choose('telescope data', ('none', 'pe', 'photons', 'both', 'emitter', 'empty'))
            if td != 'none':
                sub = []
                if td in ('pe', 'both'):
                    sub += [E.photoelectrons(t, ident) for t in TELS]
                if td in ('photons', 'both', 'emitter'):
                    sub += [E.photons(t, ident, emitters=td == 'emitter' and t == 2) for t in TELS]
                out.append(E.telescope_data(sub, ident))
            if first:
                out += monitoring(c, 2, 'first monitoring')
            elif c.flag('monitoring again'):
                out += monitoring_all(ident)
            if c.flag('photo-electron sum'):
                out.append(E.pe_sum(ident))
            if c.choose('array event', (1, 0), s.is_free('triggered')):
                out.append(array_event(c, s, ident, ident, 'data', s.pieces))
                first = False
    if c.flag('histograms', s.is_free('histograms')):
        out.append(E.histograms())
    if s.unknown and c.flag('unknown block'):
        out.insert(c.choose('where', len(out) + 1, free=True), c.choose('unknown kind', [
            E.generic(), E.generic(4, 2024), E.generic(4, 2025), E.generic(0, 1216 + 3000)], free=True))
    return out


def monitoring_all(tag):
    out = []
    for t in TELS:
        out += [E.camera_monitoring(t, tag), E.laser_calibration(t, tag)]
    return out


_header = None


def header():
    """telescope 105 has no data in most files, but exists"""
    global _header
    if _header is None:
        _header = E.header_part(tels=[1, 2])
    return _header


def gen(s):
    def g(c):
        variant = c.choose('variant', s.variants, s.is_free('variant'))
        h = header()
        return h + body(c, s), len(h), variant
    return g


def write(blocks, variant, name='s.dat'):
    return name, evio.store(name, E.content(blocks), variant)


def compare(events, expected, what, ctx=None):
    for k, (a, e) in enumerate(zip(events, expected)):
        e = E.resolve(e, a)
        if not same(a, e):
            check_same(a, e, '{}: event {}'.format(what, k))


def run(cases, ctx):
    from eventio import SimTelFile
    for blocks, start, variant in cases:
        expected = E.simtel_events(blocks, start, skip_non_triggered=False)
        path, kw = write(blocks, variant)
        what = '{} {}'.format(variant, blocks[start:])
        with caught(), SimTelFile(path, skip_non_triggered=False, **kw) as f:
            kept = []
            for a in f:
                if len(kept) >= len(expected):
                    fail('{}: more than {} events', what, len(expected))
                e = expected[len(kept)]
                check_same(a, e, '{}: event {}'.format(what, len(kept)))
                kept.append(a)
                ctx.step()
                ctx.state(variant, what, len(kept))
            if len(kept) != len(expected):
                fail('{}: {} events instead of {}', what, len(kept), len(expected))
            h = next((b for b in blocks if b.kind == 'histograms'), None)
            check_same(f.histograms, h and h.value, what + ': histograms')
            # the end stays the end
            for _ in range(2):
                x = next(f, None)
                if x is not None:
                    fail('{}: an event after the end: {}', what, x)
            compare(kept, expected, what + ' looked at again at the end')
        ctx.outcome(len(expected), len(blocks))


# ------------------------------------------------------------------ many of everything
def gen_many(scale):
    def g(c):
        what = c.choose('many', ('telescopes', 'reuses', 'showers', 'calibration events', 'bare calibration events', 'photo-electrons',
                                 'photons', 'pixel lists', 'traces', 'monitoring', 'telescopes in the header'), free=True)
        n = c.choose('how many', (20, 300, 1000)[:2 + (scale > 1)], free=True)
        if what.startswith(('telescopes', 'photo')):
            n = min(n * 4, 999)
        variant = c.choose('variant', ('plain', 'gzip', 'zst', 'zcat'), free=True)
        h = E.header_part(tels=list(range(1, n + 1))) if what == 'telescopes in the header' else header()
        out = []

        def event(ident, big):
            tels = list(range(1, n + 1)) if big and what.startswith('telescopes') else [1, 2][:1 + ident % 2]
            te = [E.telescope_event(t, ('header', 'sums', 'list', 'analog'), ident % 50, ident) for t in tels]
            if big and what in ('pixel lists', 'traces'):
                parts = [E.piece('header', 1, 1)]
                for i in [*range(n), *(() if what == 'pixel lists' else (1 << 15, 1 << 16, 1 << 20, (1 << 31) - 1))]:
                    if what == 'traces':
                        parts.append(E.block('C20', 'auxiliary digital traces', i % 50, 1, id=i))
                    else:
                        parts.append(E.block('C20', 'pixel list', i, 1, id=1000000 * i + 1, version=1))
                te = [E.group('telescope event', 2201, parts, ident, 1)]
                tels = [1]
            return E.array_event(ident, E.trigger_information(ident, tels, tels, ident % 50), te,
                                 [E.tracking(t, ident % 50) for t in tels], E.stereo(ident % 50))
        if 'calibration' in what:
            for k in range(1, n + 1):
                if what.startswith('bare'):
                    out.append(event(k, False))
                else:
                    out += [E.calibration_pe([E.photoelectrons(1, k)])] * (k % 3 == 0) + [E.calibration_event(event(k, False), k % 4)]
        for k in range(1, 1 + (n if what == 'showers' else 2)):
            out.append(E.shower(k))
            for j in range(n if what == 'reuses' and k == 1 else k % 3):
                ident = 1000 * k + j
                big = k == 1 and j == 0
                out.append(E.mc_event(ident))
                if what.startswith('photo') and big:
                    out.append(E.telescope_data([(E.photons if what == 'photons' else E.photoelectrons)(t, 3)
                                                 for t in range(1, n + 1)], ident))
                if what == 'monitoring' and big:
                    for i in range(n):
                        out += [E.camera_monitoring(1 + i % 2, i), E.laser_calibration(1, i), E.pixel_monitoring(2, i)]
                if j % 4 != 3:
                    out.append(event(ident, big))
        out.append(E.histograms())
        return h + out, len(h), variant
    return g


# ------------------------------------------------------------------ telescopes without tracking
def gen_mixed(length):
    """calibration blocks anywhere between showers and their events"""
    def event(ident):
        tels = [(1, 2), (2,), (1,), ()][ident % 4]
        return E.array_event(ident, E.trigger_information(ident, tels, tels, ident), [E.telescope_event(t, ('header', 'sums'), ident, ident) for t in tels],
                             [E.tracking(t, ident) for t in tels], E.stereo(ident))

    def g(c):
        out = []
        shower = False
        for k in range(length):
            what = c.choose('item', ['end', 'shower', 'calibration', 'calibration with photo-electrons', 'monitoring', *(['event', 'simulated event'] if shower else [])],
                            free=True)
            if what == 'end':
                break
            if what == 'shower':
                shower = True
                out += [E.shower(k + 1, k)] + [E.particles(k, 2)] * (k % 2)
            elif what == 'monitoring':
                out += [E.camera_monitoring(1 + k % 2, k), E.laser_calibration(2 - k % 2, k)]
            elif what.startswith('cal'):
                out += [E.calibration_pe([E.photoelectrons(1, k)])] * ('with' in what) + [E.calibration_event(event(40 + k), k % 4)]
            else:
                out.append(E.mc_event(100 + k))
                if what == 'event':
                    out.append(event(100 + k))
        out += [E.histograms()] * c.flag('histograms', free=True)
        h = header()
        return h + out, len(h), 'plain'
    return g


def gen_missing(c):
    """one of several events has a telescope without tracking position"""
    storage = c.choose('events', ('data', 'calibration', 'bare calibration'), free=True)
    n = 3
    bad = c.choose('event without tracking', n, free=True)
    tels = c.choose('telescopes', ((1, 2), (1,), (2, 1), (105, 2, 1)), free=True)
    missing = [t for t in tels if c.flag('tracking missing', free=True)]
    extra = c.flag('tracking of others', free=True)
    order = c.choose('order', ('documented', 'tracking first'), free=True)
    with_stereo = c.flag('stereo', free=True)
    out = []
    if storage == 'data':
        out.append(E.shower(1))
    for k in range(n):
        ident = 100 + k
        have = [t for t in tels if k != bad or t not in missing]
        if extra:
            have = have + [t for t in (7, 8) if t not in tels]
        trigger = E.trigger_information(ident, tels, tels, ident)
        te = [E.telescope_event(t, ('header', 'sums'), ident, ident) for t in tels]
        tr = [E.tracking(t, ident) for t in have]
        st = [E.stereo(ident)] if with_stereo else []
        a = E.group('array event', 2010, [trigger, *((tr + te) if order == 'tracking first' else (te + tr)), *st], ident)
        if storage == 'data':
            out += [E.mc_event(ident), a]
        elif storage == 'calibration':
            out.append(E.calibration_event(a, k))
        else:
            out.append(a)
    h = header()
    return h + out, len(h), bad if missing else None


def run_missing(cases, ctx):
    from eventio import SimTelFile
    for blocks, start, bad in cases:
        path, kw = write(blocks, 'plain')
        expected = E.simtel_events(blocks, start, skip_non_triggered=False)
        what = 'event {} without tracking: {}'.format(bad, blocks[start:])
        got, error = [], None
        with caught(), SimTelFile(path, skip_non_triggered=False, **kw) as f:
            try:
                for e in f:
                    got.append(e)
            except Exception as x:
                error = x
        ctx.step()
        if bad is None:
            if error is not None or len(got) != len(expected):
                fail('{}: {} events, {!r}', what, len(got), error)
        elif error is None:
            fail('{}: delivers {} events, no error', what, len(got))
        elif len(got) > bad:
            fail('{}: delivers {} events before the error', what, len(got))
        for k, e in enumerate(got):
            check_same(e, expected[k], '{}: event {}'.format(what, k))
        ctx.state(bad, E.content(blocks[start:]))
        ctx.outcome(bad, len(got))


# ------------------------------------------------------------------ real files
SKIP = ('test_lasercal_v3.simtel.gz',)      # truncated, see C08


def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return c.choose('file', files, free=True) if files else None
    return g


def real_blocks(path, limit=None):
    """(blocks, end of the header part) of a complete simtel file, else None"""
    data = codec.content(path)
    if data is None or os.path.basename(path) in SKIP:
        return None
    head = codec.complete_objs(data[:200000])
    if not head or head[0].type != 70:
        return None
    blocks = E.from_file(data, limit)
    n = next((b.value['n_telescopes'] for b in blocks if b.obj.type == 2000), None)
    if n is None:
        return None
    seen = {}
    for i, b in enumerate(blocks):
        if b.kind in E.DESCRIPTIONS:
            seen.setdefault(b.tel, set()).add(b.kind)
        if sum(len(x) == 7 for x in seen.values()) == n:
            return blocks, i + 1
    return None


def run_real(cases, ctx):
    from eventio import SimTelFile
    for path in cases:
        rb = real_blocks(path) if path else None
        if rb is None:
            continue
        blocks, start = rb
        expected = E.simtel_events(blocks, start, skip_non_triggered=False)
        with caught(), SimTelFile(path, skip_non_triggered=False, zcat=False) as f:
            n = 0
            for n, a in enumerate(f, start=1):
                if n > len(expected):
                    fail('{}: more than {} events', path, len(expected))
                check_same(a, expected[n - 1], '{}: event {}'.format(path, n - 1))
                ctx.step()
                ctx.state(path, n)
            if n != len(expected):
                fail('{}: {} events instead of {}', path, n, len(expected))
        ctx.outcome(path, n)


def parts(tier):
    q = tier == 'quick'
    k = 2 if q else 3
    return [
        Part('order of blocks', gen(Shape(calib=1, showers=1, reuses=2, free=('calib', 'bare', 'showers', 'reuses', 'histograms', 'triggered'))),
             run, bound=k, batch=16, note='up to one calibration event, shower and two reuses; every presence of array events '
             'and histograms, at most {} other deviations'.format(k)),
        Part('several', gen(Shape(calib=2, showers=2, reuses=2, free=('calib',) if q else ('calib', 'bare', 'histograms'))),
             run, bound=k, batch=16, note='two calibration events, two showers with two reuses, at most {} deviations'.format(k)),
        Part('telescope events', gen(Shape(calib=0, showers=1, reuses=1, pieces=True, unknown=False, free=('telescopes',))),
             run, bound=3 if q else 5, batch=16, note='parts of a telescope event, at most {} absent'.format(3 if q else 5)),
        Part('missing tracking', gen_missing, run_missing, batch=16, note='every subset of telescopes without tracking in each of three events'),
        Part('mixed', gen_mixed(5 if q else 6), run, batch=32,
             note='every sequence of at most {} showers, events, calibration events and monitoring blocks'.format(5 if q else 6)),
        Part('many', gen_many(1 if q else 3), run, batch=1, note='many telescopes, events, lists, traces or monitoring blocks'),
        Part('storage', gen(Shape(calib=1, showers=2, reuses=1, variants=('gzip', 'zst', 'zcat', 'gzip2', 'zst2', 'zcat2'), free=('variant',))),
             run, bound=1 if q else 2, batch=8, note='compressed files, at most {} deviations'.format(1 if q else 2)),
        Part('real files', gen_real(2000000 if q else None), run_real, batch=1,
             note='every event of real files against the reference assembler'),
    ]
