"""C29: run information and monitoring reach the right event unchanged."""
import os

from .. import codec, evio, events as E
from ..common import fail, caught, check_same, same
from ..engine import Part
from . import c27

TECHNIQUE = ('bounded exhaustive exploration of the places of monitoring and header blocks on the real SimTelFile, compared '
             'with a reference that looks them up in the whole list of blocks')
ASSUMPTIONS = c27.ASSUMPTIONS + ['a monitoring block that does not hold some part leaves the last stored one valid']

TELS = (1, 2)
_header = None


def header():
    global _header
    if _header is None:
        _header = E.header_part(tels=[1, 2])
    return _header


MONITORS = [
    lambda tag: E.camera_monitoring(1, tag), lambda tag: E.camera_monitoring(2, tag),
    lambda tag: E.laser_calibration(1, tag), lambda tag: E.laser_calibration(2, tag),
    lambda tag: E.pixel_monitoring(1, tag), lambda tag: E.pixel_monitoring(2, tag),
    lambda tag: E.camera_monitoring(1, tag, 0x05), lambda tag: E.camera_monitoring(2, tag, 0x40),
    lambda tag: E.laser_calibration(1, tag, 0), lambda tag: E.pixel_monitoring(1, tag, 0x81),
    lambda tag: E.camera_monitoring(105, tag), lambda tag: E.metadata(1, 77), lambda tag: E.metadata(-1, 78),
]


def gen(calibration, n_events):
    def g(c):
        blocks = list(header())
        start = len(blocks)
        slot = [0]

        def place():
            slot[0] += 1
            while c.flag('block here'):
                k = c.choose('which', len(MONITORS), free=True)
                blocks.append(MONITORS[k](slot[0] * 3 + k))
        if c.choose('monitoring at the start', (1, 0), free=True):
            blocks.extend([E.camera_monitoring(t) for t in TELS] + [E.laser_calibration(t) for t in TELS])
        for i in range(calibration):
            place()
            tels = c.choose('telescopes', ((1, 2), (1,), (2,), (2, 1)))
            a = E.array_event(i + 1, E.trigger_information(i + 1, tels, tels, i), [E.telescope_event(t, ('header',), i) for t in tels],
                              [E.tracking(t, i) for t in TELS])
            blocks.append(E.calibration_event(a, 2) if c.choose('packed', (1, 0)) else a)
        place()
        blocks.append(E.shower(1))
        for j in range(n_events):
            ident = 100 + j
            place()
            blocks.append(E.mc_event(ident))
            place()
            tels = c.choose('telescopes', ((1, 2), (1,), (2,), (), (2, 1), None))
            if tels is not None:
                blocks.append(E.array_event(ident, E.trigger_information(ident, tels, tels, ident), [
                    E.telescope_event(t, ('header',), ident) for t in tels], [E.tracking(t, ident) for t in TELS]))
        place()
        if c.flag('histograms'):
            blocks.append(E.histograms())
        return blocks, start
    return g


def run(cases, ctx):
    from eventio import SimTelFile
    for blocks, start in cases:
        expected = E.simtel_events(blocks, start, skip_non_triggered=False)
        path, kw = c27.write(blocks, 'plain', 'm.dat')
        what = str(blocks[start:])
        with caught(), SimTelFile(path, skip_non_triggered=False) as f:
            kept = []
            for e in f:
                if len(kept) >= len(expected):
                    fail('{}: more than {} events', what, len(expected))
                check_same(e, expected[len(kept)], '{}: event {}'.format(what, len(kept)))
                kept.append(e)
                # events that were delivered before stay as they were
                for k in range(len(kept) - 1):
                    if not same(kept[k], expected[k]):
                        check_same(kept[k], expected[k], '{}: event {} after event {} was read'.format(what, k, len(kept) - 1))
                ctx.step()
                ctx.state(what, len(kept))
            if len(kept) != len(expected):
                fail('{}: {} events instead of {}', what, len(kept), len(expected))
            for k in range(len(kept)):
                check_same(kept[k], expected[k], '{}: event {} at the end'.format(what, k))
            # the run information stays as it was
            check_header(f, blocks, start, what, False)
        ctx.outcome(len(kept), len(blocks))


def check_header(f, blocks, start, what, fresh=True):
    for name, e in E.header_results(blocks, start).items():
        if not fresh and name in ('global_meta', 'telescope_meta'):
            # may be stored again later
            continue
        check_same(getattr(f, name), e, '{}: {}'.format(what, name))


# ------------------------------------------------------------------ header part
def gen_header(c):
    tels = c.choose('telescopes', ((1, 2), (1,), (), (2, 1), (1, 105), (7, 3, 12)))
    blocks = []
    n_hist = c.choose('histories', (1, 0, 2))
    for i in range(n_hist):
        blocks.append(E.history(i, c.choose('lines', (2, 0, 1, 5))))
    if c.choose('global metadata', (1, 0)):
        blocks.append(E.metadata(-1))
    for t in tels:
        if c.choose('metadata', (1, 0)):
            blocks.append(E.metadata(t, t))
    if c.flag('metadata of telescope 0'):
        blocks.append(E.metadata(0, 9))
    head = [E.run_header(len(tels), 1, c.choose('run header version', (1, 0, 2)))]
    for i in range(c.choose('mc run headers', (1, 0, 2))):
        head.append(E.mc_run_header(i))
    for i in range(c.choose('input cards', (1, 0, 2))):
        head.append(E.input_card(i))
    for i in range(c.choose('profiles', (1, 0, 2))):
        head.append(E.profile(i))
    if c.flag('run header first'):
        blocks = head + blocks
    else:
        blocks = blocks + head
    names = list(E.DESCRIPTIONS)
    desc = []
    for t in tels:
        k = c.choose('order', ('documented', 'reversed', 'rotated'))
        order = {'documented': names, 'reversed': names[::-1], 'rotated': names[3:] + names[:3]}[k]
        desc.append([E.description(n, t, 2) for n in order])
    how = c.choose('telescopes are', ('one by one', 'interleaved', 'other order'))
    if how == 'interleaved':
        out = [d[i] for i in range(7) for d in desc]
    elif how == 'other order':
        out = [b for d in desc[::-1] for b in d]
    else:
        out = [b for d in desc for b in d]
    if len(out) > 1 and c.flag('swapped'):
        k = c.choose('swap', len(out) - 1, free=True)
        out[k], out[k + 1] = out[k + 1], out[k]
    if out and c.flag('block between'):
        k = c.choose('where', len(out), free=True)
        out.insert(k, c.choose('kind', [E.history(7), E.metadata(5, 7), E.mc_run_header(5), E.input_card(4), E.profile(3),
                                        E.generic(), E.camera_monitoring(1, 3), E.laser_calibration(2, 3)], free=True))
    if out and c.flag('stored twice'):
        # the description of a telescope is stored again
        out.insert(c.choose('where', len(out), free=True), E.description(names[c.choose('which', 7, free=True)], tels[0], 50))
    blocks = blocks + out
    if not tels:
        # nothing more than the run header is needed
        k = next(i for i, b in enumerate(blocks) if b.obj.type == 2000) + 1
        return blocks, k, c.choose('variant', ('plain', 'gzip', 'zst', 'zcat'))
    # the header ends where all descriptions are there and the run header is known
    need = {(t, n) for t in tels for n in names}
    seen = set()
    for i, b in enumerate(blocks):
        if b.kind in E.DESCRIPTIONS:
            seen.add((b.tel, b.kind))
        if need <= seen and any(x.obj.type == 2000 for x in blocks[:i + 1]):
            break
    return blocks, i + 1, c.choose('variant', ('plain', 'gzip', 'zst', 'zcat'))


def run_header(cases, ctx):
    from eventio import SimTelFile
    for blocks, start, variant in cases:
        extra = [E.camera_monitoring(1, 1), E.laser_calibration(1, 1), E.shower(1), E.mc_event(100),
                 E.array_event(100, E.trigger_information(100, (1,), (1,)), [E.telescope_event(1, ('header',))], [E.tracking(1)])]
        path, kw = c27.write(blocks + extra, variant, 'h.dat')
        what = '{} {}'.format(variant, blocks)
        with caught(), SimTelFile(path, **kw) as f:
            check_header(f, blocks, start, what)
            ctx.step()
            ctx.state(what)
            events = list(f)
            if len(events) != 1:
                fail('{}: {} events instead of 1', what, len(events))
            check_same(events[0], E.simtel_events(blocks + extra, start)[0], what + ': event')
            if start == len(blocks):
                check_header(f, blocks, start, what + ' at the end')
            ctx.outcome(len(blocks), start)


# ------------------------------------------------------------------ real files
def run_real(cases, ctx):
    from eventio import SimTelFile
    for path in cases:
        rb = c27.real_blocks(path) if path else None
        if rb is None:
            continue
        blocks, start = rb
        expected = E.simtel_events(blocks, start)
        with caught(), SimTelFile(path, zcat=False) as f:
            check_header(f, blocks, start, path)
            kept = list(f)
            if len(kept) != len(expected):
                fail('{}: {} events instead of {}', path, len(kept), len(expected))
            for k, (a, e) in enumerate(zip(kept, expected)):
                check_same(a, e, '{}: event {} at the end'.format(path, k))
                ctx.step()
                ctx.state(path, k)
        ctx.outcome(path, len(kept))


def parts(tier):
    q = tier == 'quick'
    return [
        Part('monitoring', gen(0, 3), run, bound=2 if q else 3, batch=16,
             note='three events, at most {} deviations: monitoring blocks of all kinds at every place'.format(2 if q else 3)),
        Part('calibration', gen(2, 1), run, bound=2 if q else 3, batch=16,
             note='two calibration events and a shower event, as above'),
        Part('header', gen_header, run_header, bound=2 if q else 3, batch=16,
             note='numbers, orders and repetitions of header blocks, at most {} deviations'.format(2 if q else 3)),
        Part('real files', c27.gen_real(1000000 if q else None), run_real, batch=1, note='real files: header information and events at the end'),
    ]
