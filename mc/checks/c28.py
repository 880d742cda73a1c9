"""C28: event and telescope selection is exact filtering."""
import os

from .. import codec, evio, events as E
from ..common import fail, caught, check_same, same
from ..engine import Part
from . import c27

TECHNIQUE = ('bounded exhaustive exploration of files and selections on the real SimTelFile, compared with a reference '
             'that filters the events of the reference assembler')
ASSUMPTIONS = c27.ASSUMPTIONS + [
    'photons and photo-electrons of the simulation may be filtered by telescope or not',
    'an empty selection means no selection']

TELS = (1, 2, 105, 3)
DATA = ((1, 2), (1,), (2,), (), (105,), (1, 105), (2, 1, 105))
ALLOWED = ((1,), (2,), (105,), (1, 2), (1, 105), (3,), (1, 2, 105), (2, 3), None)
FORMS = (list, set, tuple, frozenset, iter, dict.fromkeys)


def array_event(c, ident, tag, first, name):
    tels = c.choose(name + ' data', DATA, first)
    trig = c.choose(name + ' triggered', ('same', 'more', 'none', 'others'))
    t = {'same': tels, 'more': tuple(sorted(set(tels) | {2, 105})), 'none': (), 'others': (3,)}[trig]
    track = c.choose(name + ' tracking', ('all', 'needed'))
    trigger = E.trigger_information(ident, t, tels, tag)
    sub = ('header', 'sums', 'list')
    events = [E.telescope_event(x, sub, tag, ident) for x in tels if not (c.flag('data missing'))]
    tracking = [E.tracking(x, tag) for x in (sorted(set(TELS)) if track == 'all' else tels)]
    stereo = E.stereo(tag) if c.choose(name + ' stereo', (1, 0)) else None
    if c.flag('stereo first') and stereo:
        return E.group('array event', 2010, [trigger, stereo, *tracking, *events], ident)
    return E.array_event(ident, trigger, events, tracking, stereo)


_header = None


def header():
    global _header
    if _header is None:
        _header = E.header_part(tels=[1, 2, 105])
    return _header


def gen(free_form=False, n_events=2, first_free=True):
    def g(c):
        blocks = list(header())
        start = len(blocks)
        skip_non_triggered = c.choose('skip non-triggered', (True, False), free=True)
        skip_calibration = c.choose('skip calibration', (False, True), free=True)
        allowed = c.choose('allowed', ALLOWED, free=True)
        form = c.choose('form', len(FORMS), free=free_form)
        cal = c.choose('calibration', ('packed', 'bare', 'none', 'both', 'two'))
        blocks += [E.camera_monitoring(t) for t in (1, 2, 105)] + [E.laser_calibration(t) for t in (1, 105)]
        for i in range({'none': 0, 'packed': 1, 'bare': 1}.get(cal, 2)):
            a = array_event(c, i + 1, 30 + i, False, 'calibration')
            if cal == 'bare' or cal == 'both' and i:
                blocks.append(a)
            else:
                blocks += [E.calibration_pe([E.photoelectrons(t, i) for t in (1, 2)]), E.calibration_event(a, 1)]
        blocks += [E.shower(1), E.particles(1)]
        for j in range(n_events):
            ident = 100 + j
            blocks.append(E.mc_event(ident))
            if c.choose('telescope data', (1, 0)):
                blocks.append(E.telescope_data([E.photoelectrons(1, j), E.photoelectrons(105, j), E.photons(2, j, emitters=1)]))
            if c.flag('monitoring'):
                blocks += [E.camera_monitoring(t, ident) for t in (1, 2, 105)]
            if c.choose('array event', (1, 0)):
                blocks.append(array_event(c, ident, ident, first_free and j == 0, 'data'))
        if c.flag('histograms'):
            blocks.append(E.histograms())
        return blocks, start, allowed, form, skip_non_triggered, skip_calibration
    return g


def check(path, kw, expected, what, ctx, allowed, form, snt, sc):
    from eventio import SimTelFile
    a = None if allowed is None else FORMS[form](allowed)
    with caught(), SimTelFile(path, allowed_telescopes=a, skip_non_triggered=snt, skip_calibration=sc, **kw) as f:
        n = 0
        for n, e in enumerate(f, start=1):
            if n > len(expected):
                fail('{}: more than {} events', what, len(expected))
            x = E.resolve(expected[n - 1], e)
            check_same(e, x, '{}: event {}'.format(what, n - 1))
            ctx.step()
        if n != len(expected):
            fail('{}: {} events instead of {}', what, n, len(expected))
    return n


def run(cases, ctx):
    for blocks, start, allowed, form, snt, sc in cases:
        expected = E.simtel_events(blocks, start, allowed, snt, sc)
        path, kw = c27.write(blocks, 'plain', 'f.dat')
        what = 'allowed {} (form {}), skip non-triggered {}, skip calibration {}, {}'.format(
            allowed, form, snt, sc, [b if b.kind != 'array event' else (b, b.parts) for b in blocks[start:]])
        check(path, kw, expected, what, ctx, allowed, form, snt, sc)
        ctx.state(what)
        ctx.outcome(len(expected), tuple(sorted(map(len, expected))))


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = [f for f in codec.resource_files(os.environ['MC_REPO']) if limit is None or os.path.getsize(f) < limit]
        if not files:
            return None
        return (c.choose('file', files, free=True), c.choose('skip non-triggered', (True, False), free=True),
                c.choose('skip calibration', (False, True), free=True),
                c.choose('telescopes', ('first', 'all', 'last', 'first and last', 'every second'), free=True))
    return g


def run_real(cases, ctx):
    for case in cases:
        if case is None:
            continue
        path, snt, sc, which = case
        rb = c27.real_blocks(path)
        if rb is None:
            continue
        blocks, start = rb
        tels = next(b.value['tel_id'].a.tolist() for b in blocks if b.obj.type == 2000)
        if not tels:
            continue
        allowed = {'first': tels[:1], 'last': tels[-1:], 'first and last': [tels[0], tels[-1]], 'every second': tels[::2]}.get(which)
        expected = E.simtel_events(blocks, start, allowed, snt, sc)
        what = '{} allowed {}, skip non-triggered {}, skip calibration {}'.format(path, allowed, snt, sc)
        n = check(path, {'zcat': False}, expected, what, ctx, allowed, 1, snt, sc)
        ctx.state(what, n)
        ctx.outcome(n)


def parts(tier):
    q = tier == 'quick'
    return [
        Part('selection', gen(), run, bound=1 if q else 2, batch=16,
             note='all selections and switches, at most {} deviations from the default file'.format(1 if q else 2)),
        Part('forms', gen(True, 1, False), run, bound=1 if q else 2, batch=16, note='selections given as all kinds of collections'),
        Part('real files', gen_real(1000000 if q else None), run_real, batch=1, note='real files, selections of their telescopes'),
    ]
