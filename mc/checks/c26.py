"""C26: CORSIKA events are assembled exactly."""
import os

from .. import codec, evio, events as E
from ..common import fail, stored, caught, differ, check_same
from ..engine import Part

TECHNIQUE = ('bounded exhaustive exploration of block sequences on the real IACT reader, every event compared with a '
             'reference assembler that cuts the whole list of blocks into events')
ASSUMPTIONS = ['the contents of single blocks follow the reference layouts decided by C16 and C17',
               'blocks of kinds the documented structure does not mention, between the array offsets and the telescope '
               'data or inside telescope data, may be ignored or refused',
               'one iterator over events is used at a time, as the reader has a single position']


def as_dict(e):
    return e._asdict()


# ------------------------------------------------------------------ files
def shower(c, k, small):
    """blocks of one shower, the choices shape it"""
    n = c.choose('reuses', (1, 2, 3), free=not small)
    split = c.flag('split', free=True)
    out = [E.event_header(k + 1), E.offsets(n, k, c.choose('offset version', (1, 0), free=k == 0))]
    extra = c.choose('longitudinal and particles', ((), 'l', 'p', 'lp', 'pl', 'll'))
    for x in extra:
        out.append(E.longitudinal(k + len(out)) if x == 'l' else E.particles(k))
    for r in range(n):
        tels = c.choose('telescopes', ((0, 1), (1,), (), (1, 0), (0,), (5, 2, 107), (1000, 0), (32767, 999, 1999)))
        emit = c.choose('emitters', (0, 1, 2, 3))
        compact = c.flag('compact')
        count = c.choose('bunches', (2, 0, 1, 3))
        bunches = [E.photons(t, 5 * k + 2 * r, emit if count == 2 else 0, count, r, compact) for t in tels]
        if split:
            out += [E.array_head(r), *bunches, E.array_end(r)]
        else:
            if c.flag('photo-electrons in telescope data'):
                bunches = [E.photoelectrons(0, k)] + bunches
            out.append(E.telescope_data(bunches, r))
    out.append(E.event_end(k + 1))
    return out


def gen_files(max_showers, variants, small=False):
    def g(c):
        n = c.choose('showers', max_showers + 1, free=True)
        blocks = E.iact_header(2, c.flag('profile', free=not small))
        start = len(blocks)
        for k in range(n):
            blocks = blocks + shower(c, k, small or k > 0)
        blocks.append(E.run_end())
        return blocks, start, c.choose('variant', variants)
    return g


def write(blocks, variant, name='f.dat'):
    kw = evio.store(name, E.content(blocks), variant)
    return name, kw


def check_header(f, head, what):
    check_same(f.header, head['run header'], what + ': header')
    check_same(f.input_card, head['input card'], what + ': input card')
    check_same(f.atmospheric_profile, head.get('atmospheric profile'), what + ': atmospheric profile')
    check_same(f.telescope_positions, head['telescope definition'], what + ': telescope positions')
    check_same(f.n_telescopes, len(f.telescope_positions), what + ': number of telescopes')


def run_files(cases, ctx):
    from eventio import IACTFile
    for blocks, start, variant in cases:
        expected = E.iact_events(blocks, start)
        path, kw = write(blocks, variant)
        what = '{} {}'.format(variant, blocks)
        head = {b.kind: b.value for b in blocks[:start]}
        with IACTFile(path, **kw) as f:
            kept = []
            check_header(f, head, what + ': after opening')
            for k, e in enumerate(f):
                if k >= len(expected):
                    fail('{}: more than {} events', what, len(expected))
                check_same(e._asdict(), expected[k], '{}: event {}'.format(what, k))
                kept.append(e)
                ctx.step()
                ctx.state(variant, len(blocks), k, str(blocks))
            if len(kept) != len(expected):
                fail('{}: {} events instead of {}', what, len(kept), len(expected))
            for k, e in enumerate(kept):
                check_same(e._asdict(), expected[k], '{}: event {} looked at again at the end'.format(what, k))
            end = next(b for b in blocks[::-1] if b.kind == 'run end')
            check_same(f.run_end, end.value, what + ': run_end')
            check_header(f, head, what + ': at the end')
            ctx.outcome(len(expected), len(blocks))


# ------------------------------------------------------------------ many of everything
def gen_many(scale):
    def g(c):
        what = c.choose('many', ('telescopes', 'reuses', 'showers', 'bunches', 'longitudinal'), free=True)
        n = c.choose('how many', (20, 100, 300)[:2 + (scale > 1)], free=True)
        if what in ('telescopes', 'bunches'):
            n *= 10 * scale
        split = c.flag('split', free=True)
        variant = c.choose('variant', ('plain', 'gzip', 'zst', 'zcat', 'zst2', 'zcat2'), free=True)
        blocks = E.iact_header(2)
        start = len(blocks)
        for k in range(n if what == 'showers' else 2):
            r = n if what == 'reuses' and k == 0 else 1 + k % 3
            blocks += [E.event_header(k), E.offsets(r, k)]
            blocks += [E.longitudinal(k + j) for j in range(n if what == 'longitudinal' else k % 2)]
            if k % 5 == 1:
                blocks.append(E.particles(k, n if what == 'bunches' else 2))
            for j in range(r):
                ph = [E.photons(t, 5 * k + 2 * j, 0, n if what == 'bunches' and k == 0 else 2, j % 1000)
                      for t in range(n if what == 'telescopes' and k == 0 else 2)]
                blocks += [E.array_head(j), *ph, E.array_end(j)] if split else [E.telescope_data(ph, j)]
            blocks.append(E.event_end(k))
        blocks.append(E.run_end())
        return blocks, start, variant
    return g


# ------------------------------------------------------------------ iterating again
FILES = None


def two_showers():
    global FILES
    if FILES is None:
        FILES = []
        for split in (0, 1):
            b = E.iact_header(2)
            start = len(b)
            for k in range(2):
                n = 2 - k
                b += [E.event_header(k), E.offsets(n, k)] + ([E.longitudinal(k), E.particles(k)] if k else [])
                for r in range(n):
                    ph = [E.photons(t, 5 * k + 2 * r, k, 2, r) for t in (0, 1)]
                    b += [E.array_head(), *ph, E.array_end()] if split else [E.telescope_data(ph)]
                b += [E.event_end(k)]
            b.append(E.run_end())
            FILES.append((b, start, E.iact_events(b, start)))
    return FILES


BETWEEN = ('nothing', 'tell', 'seek 0', 'seek end', 'read 5', 'read all', 'peek')
BEFORE = BETWEEN + ('next', 'next peek', 'all', 'iterate 1', 'iterate all')


def gen_again(variants, rounds):
    def g(c):
        i = c.choose('layout', 2, free=True)
        variant = c.choose('variant', variants, free=True)
        plan = []
        for r in range(rounds):
            before = c.choose('before', BEFORE)
            n = c.choose('events read', (3, 0, 1, 2), free=True)
            plan.append((before, n, [c.choose('between', BETWEEN) for _ in range(n)]))
        return i, variant, plan
    return g


def do(f, what):
    if what == 'nothing':
        return
    if what == 'tell':
        f.tell()
    elif what == 'seek 0':
        f.seek(0)
    elif what == 'seek end':
        f.seek(0, 2)
    elif what == 'read 5':
        f.read(5)
    elif what == 'read all':
        f.read()
    elif what == 'peek':
        f.peek()
    elif what == 'next':
        next(f, None)
    elif what == 'next peek':
        f.peek()
        next(f, None)
        f.peek()
    elif what == 'all':
        while next(f, None) is not None:
            pass
    elif what == 'iterate 1':
        for e in f:
            break
    elif what == 'iterate all':
        for e in f:
            pass


def run_again(cases, ctx):
    from eventio import IACTFile
    for i, variant, plan in cases:
        blocks, start, expected = two_showers()[i]
        path, kw = stored(E.content(blocks), variant)
        what = '{} {} {}'.format('split' if i else 'normal', variant, plan)
        seekable = evio.seekable(variant)
        with IACTFile(path, **kw) as f, caught():
            try:
                for number, (before, n, between) in enumerate(plan):
                    do(f, before)
                    it = iter(f)
                    for k in range(n):
                        e = next(it)
                        check_same(e._asdict(), expected[k], '{}: round {} event {}'.format(what, number, k))
                        ctx.step()
                        ctx.state(i, variant, number, before, k, between[k])
                        do(f, between[k])
                    if n == len(expected):
                        rest = list(it)
                        if rest:
                            fail('{}: round {}: more than {} events', what, number, n)
                        ctx.outcome('complete', number)
            except (OSError, StopIteration, EOFError) as e:
                # a stream cannot go back
                if seekable:
                    fail('{}: {!r}', what, e)
                ctx.outcome(type(e).__name__)


# ------------------------------------------------------------------ wrong blocks
def kinds():
    return [E.event_header(9), E.offsets(1, 9), E.longitudinal(9), E.particles(9), E.photons(1, 9),
            E.photons(3, 9, 0, 2, 999), E.photons(999, 9, 0, 2, 5),
            E.telescope_data([E.photons(0, 9), E.photons(1, 9)]), E.array_head(), E.array_end(), E.event_end(9),
            E.run_end(9), E.input_card(9), E.iact_header(2)[0], E.iact_header(3)[-1], E.profile(3), E.generic(),
            E.mc_event(5)]


def gen_wrong(c):
    i = c.choose('layout', 2, free=True)
    blocks, start, _ = two_showers()[i]
    blocks = list(blocks)
    for _ in range(2):
        how = c.choose('change', ('none', 'remove', 'insert', 'replace', 'swap'))
        if how == 'none':
            continue
        k = c.choose('position', len(blocks), free=True)
        if how == 'remove':
            del blocks[k]
        elif how == 'insert':
            blocks.insert(k, c.choose('kind', kinds(), free=True))
        elif how == 'replace':
            blocks[k] = c.choose('kind', kinds(), free=True)
        elif k + 1 < len(blocks):
            blocks[k], blocks[k + 1] = blocks[k + 1], blocks[k]
        if not blocks:
            break
    return i, blocks


ALWAYS_WRONG = ('event header', 'event end', 'run end', 'array offsets', 'array end')


def strict(blocks):
    """(header ok, events, position of the wrong block or None, unknown): the documented structure, block by block"""
    pos = 0

    def at(p):
        return blocks[p].kind if p < len(blocks) else None

    def is_run_header(p):
        return p < len(blocks) and blocks[p].obj.type == 1200
    if not is_run_header(0) or at(1) != 'input card':
        return False, 0, 0, False
    pos = 2
    if at(pos) == 'atmospheric profile':
        pos += 1
    if at(pos) != 'telescope definition':
        return False, 0, pos, False
    pos += 1
    start = pos
    n_events = 0
    unknown = False
    while True:
        if at(pos) == 'run end':
            return start, n_events, None, unknown
        if at(pos) != 'event header':
            return start, n_events, pos, unknown
        pos += 1
        if at(pos) != 'array offsets':
            return start, n_events, pos, unknown
        n = len(blocks[pos].value[1]['x'].a)
        pos += 1
        while at(pos) not in ('telescope data', 'array head'):
            if at(pos) is None or at(pos) in ALWAYS_WRONG or at(pos) == 'photon bunches':
                return start, n_events, pos, unknown
            if at(pos) not in ('longitudinal', 'particles'):
                unknown = True
            pos += 1
        split = at(pos) == 'array head'
        for r in range(n):
            if at(pos) != ('array head' if split else 'telescope data'):
                return start, n_events, pos, unknown
            if split:
                pos += 1
                while at(pos) == 'photon bunches':
                    pos += 1
                if at(pos) == 'particles':
                    # also a block of photon type, nothing says whether it is refused here
                    unknown = True
                    while at(pos) in ('photon bunches', 'particles'):
                        pos += 1
                if at(pos) != 'array end':
                    return start, n_events, pos, unknown
            pos += 1
        if at(pos) != 'event end':
            return start, n_events, pos, unknown
        pos += 1
        n_events += n


def run_wrong(cases, ctx):
    from eventio import IACTFile
    for i, blocks in cases:
        header, n_events, wrong, unknown = strict(blocks)
        path, kw = write(blocks, 'plain', 'w.dat')
        what = str(blocks)
        ctx.step()
        ctx.state(i, what)
        with caught():
            try:
                f = IACTFile(path)
            except Exception as e:
                if header:
                    fail('{}: opening raises {!r}', what, e)
                ctx.outcome('not opened', type(e).__name__)
                continue
        with f:
            if not header:
                fail('{}: is opened', what)
            # everything up to the wrong block is right
            good = blocks[:wrong] if wrong is not None else blocks
            last = max([k for k, b in enumerate(good) if b.kind == 'event end'], default=header - 1)
            expected = E.iact_events(clean(good[:last + 1], header) + [E.run_end()], header) if n_events else []
            got = []
            error = None
            try:
                for e in f:
                    got.append(e)
            except Exception as e:
                error = e
            for k, (a, e) in enumerate(zip(got, expected)):
                if not unknown:
                    check_same(a._asdict(), e, '{}: event {}'.format(what, k))
            if unknown:
                ctx.outcome('unspecified')
                continue
            if len(got) != len(expected):
                fail('{}: {} events instead of {}, then {!r}', what, len(got), len(expected), error)
            if (error is None) != (wrong is None):
                fail('{}: block {} is in a wrong place: {!r}', what, wrong, error)
            ctx.outcome(type(error).__name__, len(got))


def clean(blocks, header):
    """without blocks after a run end"""
    for k in range(header, len(blocks)):
        if blocks[k].kind == 'run end':
            return blocks[:k]
    return blocks


# ------------------------------------------------------------------ real files
def gen_real(c):
    files = codec.resource_files(os.environ['MC_REPO'])
    return (c.choose('file', files, free=True), c.choose('variant', ('as it is', 'plain', 'gzip', 'zcat'), free=True)) if files else None


def run_real(cases, ctx):
    from eventio import IACTFile
    for case in cases:
        if case is None:
            continue
        path, variant = case
        data = codec.content(path)
        if data is None:
            continue
        first = codec.complete_objs(data[:20000])
        if first and first[0].type != 1200:
            continue
        blocks = E.from_file(data)
        if [b.kind for b in blocks[1:2]] != ['input card'] or blocks[-1].kind != 'run end':
            continue
        start = next(k for k, b in enumerate(blocks) if b.kind == 'telescope definition') + 1
        expected = E.iact_events(blocks, start)
        kw = {}
        what = '{} {}'.format(path, variant)
        if variant != 'as it is':
            path, kw = stored(data, variant)
        with IACTFile(path, **kw) as f:
            for k, e in enumerate(f):
                check_same(e._asdict(), expected[k], '{}: event {}'.format(what, k))
                ctx.step()
                ctx.state(what, k)
            if k + 1 != len(expected):
                fail('{}: {} events instead of {}', what, k + 1, len(expected))
            ctx.outcome(what, k)


def parts(tier):
    q = tier == 'quick'
    return [
        Part('structure', gen_files(1, ['plain', 'gzip', 'zst', 'zcat']), run_files, bound=2 if q else 3, batch=16,
             note='one shower: all reuses x storage x optional parts, at most {} other deviations'.format(2 if q else 3)),
        Part('showers', gen_files(2 if q else 3, ['plain', 'zst'], small=True), run_files, bound=2 if q else 3, batch=16,
             note='up to {} showers, at most {} deviations from the default shape'.format(2 if q else 3, 2 if q else 3)),
        Part('many', gen_many(1 if q else 5), run_files, batch=1, note='many telescopes, bunches, reuses, showers or optional blocks'),
        Part('again', gen_again(['plain', 'zst'] if q else ['plain', 'gzip', 'zst', 'zcat2'], 2), run_again, bound=2 if q else 4, batch=16,
             note='two rounds of iteration, all numbers of events read, at most {} disturbances'.format(2 if q else 4)),
        Part('wrong blocks', gen_wrong, run_wrong, bound=1 if q else 2, batch=16,
             note='every block removed, replaced by or preceded by every kind, and swaps; {} change(s)'.format(1 if q else 2)),
        Part('real files', gen_real, run_real, batch=1, note='real CORSIKA files against the reference assembler'),
    ]
