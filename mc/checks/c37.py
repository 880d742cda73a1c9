"""C37: damaged data stays local and never crashes a reader."""
import os
import resource
import struct

from .. import catalogue, codec, events as E, evio, layouts as L, mem
from ..common import canon, caught, check_same, fail, same
from ..engine import Part
from . import c26, c27

TECHNIQUE = ('exhaustive fault injection: every byte of every kind of block and of small files is damaged in several ways, every block is cut '
             'and extended at every byte; each damaged block is parsed by the real code in two worlds that differ in everything but the '
             'block (neighbours, history, position, contents of free memory), and everything outside the damage is compared')
ASSUMPTIONS = ['what a damaged block gives, data or which error, is not claimed, only that it is the same in both worlds',
               'memory of a reader is limited to about 1 GB more than at the start; running out of it is an allowed error',
               'in files whose damage is in a header or in a container, what follows inside of the same top-level object is not claimed']

LIMIT = 1 << 30


# ------------------------------------------------------------------ damaging bytes
def values(b, how):
    """new values of a byte"""
    if how == 'all':
        return [v for v in range(256) if v != b]
    few = [b ^ 1, b ^ 0x80, 0, 0xff, (b + 1) & 255, 0x7f] if how == 'some' else [b ^ 1, 0xff, b ^ 0x80] if how == 'few' else [b ^ 0x81]
    return sorted({v for v in few if v != b})


def damages(payload, how, spare=0):
    """[(what, new payload)]"""
    for i in range(len(payload)):
        for v in values(payload[i], how):
            yield 'byte {} set to {:#x}'.format(i, v), payload[:i] + bytes([v]) + payload[i + 1:]


def resized(payload):
    for k in range(len(payload)):
        yield 'cut to {} bytes'.format(k), payload[:k]
    for fill in (b'\0', b'\xff', b'\x01'):
        for k in (1, 2, 3, 4, 8):
            yield '{} bytes {} added'.format(k, fill), payload + k * fill


def doubles(payload, how):
    """two damaged bytes"""
    n = len(payload)
    for i in range(n):
        for j in range(i + 1, min(n, i + 1 + how)):
            for v in (0, 0xff):
                for w in (0, 0xff, payload[j] ^ 1):
                    b = bytearray(payload)
                    b[i], b[j] = v, w
                    if b != payload:
                        yield 'bytes {} and {} set to {} and {}'.format(i, j, v, w), bytes(b)


def cut_and_damaged(payload):
    for i in range(0, len(payload)):
        for k in (1, 2, 3, 5):
            if i < len(payload) - k:
                yield 'byte {} set to {:#x}, {} bytes cut off'.format(i, payload[i] ^ 1, k), payload[:i] + bytes([payload[i] ^ 1]) + payload[i + 1:-k]


# ------------------------------------------------------------------ single blocks in two worlds
_blocks = None


def blocks():
    global _blocks
    if _blocks is None:
        _blocks = [b for b in catalogue.all_blocks() if len(b[1].payload) < 1500]
    return _blocks


def gen_block(how, pieces):
    def g(c):
        return c.choose('block', len(blocks()), free=True), how, c.choose('piece', pieces, free=True), pieces
    return g


def outcome(o):
    """result of parsing, as something comparable"""
    if isinstance(o, Exception):
        return 'error', type(o).__name__
    try:
        return 'result', canon(codec.parse(o))
    except MemoryError:
        return 'no memory'
    except Exception as e:
        return 'error', type(e).__name__


def every(it, limit):
    """objects, or the error met in place of one"""
    for _ in range(limit):
        try:
            yield next(it)
        except StopIteration:
            return
        except Exception as e:
            yield e
    fail('more than {} objects', limit)


def limited():
    with open('/proc/self/statm') as f:
        size = int(f.read().split()[0]) * resource.getpagesize()
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (size + LIMIT, hard))


def run_block(cases, ctx):
    from eventio import EventIOFile
    import numpy as np
    m = mem.load()
    m.install()
    limited()
    for i, how, piece, pieces in cases:
        name, x, _ = blocks()[i]
        if how == 'size':
            ds = [*resized(x.payload), *cut_and_damaged(x.payload)]
        elif isinstance(how, int):
            ds = list(doubles(x.payload, how))
        else:
            ds = list(damages(x.payload, how))
        ds = ds[len(ds) * piece // pieces:len(ds) * (piece + 1) // pieces]
        if not ds:
            continue
        damaged = [evio.Obj(x.type, p, version=x.version, ident=x.id) for _, p in ds]
        # world 1: one after the other at top level, before small objects
        data = evio.build([o for d in damaged for o in (d, evio.Obj(60001, b'\x11' * 5))])
        with open('one.dat', 'wb') as f:
            f.write(data)
        # world 2: nested, in reverse order, behind an undamaged one, other neighbours
        good = evio.Obj(x.type, x.payload, version=x.version, ident=x.id)
        data = evio.build([evio.Obj(60002, [o for d in damaged[::-1] for o in (evio.Obj(60003, b'\xee' * 9), d, evio.Obj(60003, b'\xee' * 7), good)])])
        with open('two.dat', 'wb') as f:
            f.write(data)
        with caught(), np.errstate(all='ignore'):
            m.fill(0x5a)
            with EventIOFile('one.dat') as f:
                first = [outcome(o) for o in list(every(f, 2 * len(ds) + 1))[::2]]
            m.fill(0xa5)
            second, whole = [], None
            with EventIOFile('two.dat') as f:
                for k, o in enumerate(every(next(f), 4 * len(ds) + 1)):
                    if k % 2 == 0:
                        continue
                    r = outcome(o)
                    if k % 4 == 1:
                        second.append(r)
                    elif whole is None:
                        whole = r
                        if r[0] != 'result':
                            fail('{}: undamaged block gives {}', name, r)
                    elif r != whole:
                        fail('{}: the undamaged block after the one with {} gives another result: {:.300} instead of {:.300}', name,
                             ds[len(ds) - len(second)][0], repr(r), repr(whole))
            m.fill(0)
        if len(first) != len(ds) or len(second) != len(ds):
            fail('{}: {} and {} objects instead of {}', name, len(first), len(second), len(ds))
        for (what, p), a, b in zip(ds, first, second[::-1]):
            ctx.step()
            if a != b and 'no memory' not in (a, b):
                fail('{}, {}: the result depends on something outside of the block: {:.400} or {:.400}\npayload {}', name, what, repr(a), repr(b),
                     p[:400].hex())
            ctx.state(name, x.version, p)
            ctx.outcome(name, a[:2] if a[0] == 'error' else a[0])


# ------------------------------------------------------------------ whole files
def file_objects(k):
    """small files with containers"""
    g = L.generic
    return [
        [g(3), L.box(L.mc_event(), L.box(g(2), L.input_card()), L.meta()), L.photons(2), g(0)],
        [L.telescopes(), L.box(g(1), ext=True), L.box(), L.pixel_list(), L.box(L.box(L.box(g(4), L.tracking())), g(1))],
        [g(5, ext=True), L.history_line(), L.box(L.photons(1), L.photons(2, tel=2), L.photons(0, tel=3)), L.mc_event()],
        [evio.Obj(70, [L.history_line(), L.history_line(cfg=True)], version=0), L.meta(), g(9), L.box(g(12, type_=2021), g(2))],
    ][k]


def gen_files(how, pieces):
    def g(c):
        return (c.choose('file', 4, free=True), how, c.choose('piece', pieces, free=True), pieces, c.choose('stored', ('plain', 'gzip', 'zcat', 'zst')))
    return g


def walk(f, limit):
    """[(address, level, header, contents)], final error"""
    out = []

    def one(o, level):
        if len(out) > limit:
            fail('the file has no end: {} objects', len(out))
        h = o.header
        row = [level, (h.type, h.version, h.id, bool(h.user), bool(h.extended), bool(h.only_subobjects), h.content_size, h.content_address), None]
        out.append(row)
        if h.only_subobjects:
            for c in o:
                one(c, level + 1)
        else:
            try:
                o.seek(0)
            except Exception:       # a stream, the constructor read something
                return
            try:
                b = o.read()
            except EOFError:
                b = 'cut'
            if b != 'cut':
                try:
                    o.seek(0)
                    p = outcome(o)
                except Exception as e:      # streams cannot go back
                    p = None
                row[2] = b, p
            else:
                row[2] = b, None

    error = None
    try:
        for o in f:
            one(o, 0)
    except RecursionError:
        raise
    except Exception as e:
        if type(e).__name__ == 'Violation':
            raise
        error = e
    return out, error


def run_files(cases, ctx):
    from eventio import EventIOFile
    limited()
    for k, how, piece, pieces, variant in cases:
        tops = file_objects(k)
        data = evio.build(tops)
        leaves = [o for t in tops for o in t.walk() if not o.sub]
        with caught():
            kw = evio.store('f.dat', data, variant)
            with EventIOFile('f.dat', **kw) as f:
                good, error = walk(f, 10000)
        if error is not None:
            fail('undamaged file {}: {!r}', k, error)
        n = len(data)
        for i in range(n * piece // pieces, n * (piece + 1) // pieces):
            for v in values(data[i], how):
                what = 'file {} {}: byte {} set to {:#x}'.format(k, variant, i, v)
                kw = evio.store('d.dat', data[:i] + bytes([v]) + data[i + 1:], variant)
                with caught():
                    try:
                        f = EventIOFile('d.dat', **kw)
                    except Exception as e:
                        if i >= 4:
                            fail('{}: not opened: {!r}', what, e)
                        continue
                    with f:
                        got, error = walk(f, n)
                ctx.step()
                ctx.state(k, variant, i, v)
                ctx.outcome(k, len(got), type(error).__name__)
                # everything before the object that holds the damage
                before = [r for r in good if r[1][-1] + r[1][-2] <= i and not r[1][5]]
                it = [r for r in got if not r[1][5]][:len(before)]
                if it != before:
                    fail('{}: objects before the damage: {} instead of {}', what, it, before)
                hit = next((o for o in leaves if o.address <= i < o.address + o.size), None)
                if hit is None:
                    continue
                # damage in a payload: only this payload is another one
                if error is not None or len(got) != len(good):
                    fail('{}: a damaged payload ends the iteration after {} of {} objects: {!r}', what, len(got), len(good), error)
                for a, b in zip(got, good):
                    if a[:2] != b[:2] or a[2] != b[2] and b[1][-1] != hit.address:
                        fail('{}: {} instead of {}', what, a, b)
                    if b[1][-1] == hit.address and a[2] and a[2][0] != data[hit.address:i] + bytes([v]) + data[i + 1:hit.address + hit.size]:
                        fail('{}: the damaged payload is {}', what, a)


# ------------------------------------------------------------------ events
_content = {}


def event_file(kind):
    """(blocks, number of header blocks)"""
    if kind not in _content:
        if kind == 'iact':
            h = E.iact_header(2)
            out = list(h)
            for k in (1, 2, 3):
                out += [E.event_header(k), E.offsets(2, k)]
                if k != 2:
                    out.append(E.longitudinal(k))
                for j in range(2):
                    out.append(E.telescope_data([E.photons(t, 10 * k + j) for t in (0, 1)], j))
                out.append(E.event_end(k))
            _content[kind] = out + [E.run_end()], len(h)
        else:
            h = c27.header()
            out = []
            for k in (1, 2):
                out.append(E.shower(k))
                for j in range(2):
                    ident = 100 * k + j
                    out += [E.mc_event(ident), E.telescope_data([E.photoelectrons(1, ident)], ident), E.camera_monitoring(1, ident),
                            E.pe_sum(ident)]
                    out.append(E.array_event(ident, E.trigger_information(ident, (1, 2), (1, 2), ident),
                                             [E.telescope_event(t, ('header', 'sums', 'timing', 'list'), ident, ident) for t in (1, 2)],
                                             [E.tracking(t, ident) for t in (1, 2)], E.stereo(ident)))
            _content[kind] = h + out, len(h)
    return _content[kind]


def gen_events(kind, how, pieces):
    def g(c):
        return kind, how, c.choose('piece', pieces, free=True), pieces
    return g


def run_events(cases, ctx):
    from eventio import SimTelFile, IACTFile
    import numpy as np
    limited()
    for kind, how, piece, pieces in cases:
        blocks, start = event_file(kind)
        data = E.content(blocks)
        ends = [0]
        for b in blocks:
            ends.append(ends[-1] + len(b.data))
        if kind == 'iact':
            expected = E.iact_events(blocks, start)
            closing = [k for k, b in enumerate(blocks) if b.kind == 'event end']
            stop = [ends[closing[k // 2] + 1] for k in range(len(expected))]
            reader, as_dict, more = IACTFile, c26.as_dict, {}
        else:
            expected = E.simtel_events(blocks, start, skip_non_triggered=False)
            starts = E._starts(blocks, start) + [len(blocks)]
            # an event ends where the next one begins
            stop = [ends[k + 1] for k in starts[1:-1]] + [len(data)]
            reader, as_dict, more = SimTelFile, lambda e: e, {'skip_non_triggered': False}
        n = len(data)
        todo = [(i, v) for i in range(4, n) for v in values(data[i], how)]
        for i, v in todo[len(todo) * piece // pieces:len(todo) * (piece + 1) // pieces]:
            what = '{} file: byte {} set to {:#x}'.format(kind, i, v)
            with open('e.dat', 'wb') as f:
                f.write(data[:i] + bytes([v]) + data[i + 1:])
            got, error = [], None
            with caught(), np.errstate(all='ignore'):
                try:
                    with reader('e.dat', **more) as f:
                        for e in f:
                            got.append(e)
                            if len(got) > 100:
                                fail('{}: the file has no end', what)
                except Exception as e:
                    if type(e).__name__ == 'Violation':
                        raise
                    error = e
            ctx.step()
            ctx.state(kind, i, v)
            ctx.outcome(kind, len(got), type(error).__name__)
            sure = sum(s <= i for s in stop)
            for k, e in enumerate(got[:sure]):
                e = as_dict(e)
                x = E.resolve(expected[k], e)
                if not same(e, x):
                    check_same(e, x, '{}: event {}, which lies before the damage'.format(what, k))
            if len(got) < sure - 1:
                fail('{}: {} events, {} lie before the damage, then {!r}', what, len(got), sure, error)


def parts(tier):
    mem.load()
    q = tier == 'quick'
    out = [
        Part('bytes', gen_block('some' if q else 'all', 2 if q else 8), run_block, batch=1,
             note='every kind of block in every version, every byte set to {} values'.format('up to 6' if q else 'all 255 other')),
        Part('sizes', gen_block('size', 2), run_block, batch=1, note='every kind of block cut and extended at every byte, with and without a damaged byte'),
        Part('files', gen_files('few' if q else 'all', 8), run_files, bound=1, batch=1, note='every byte of four small files, all storage variants'),
        Part('iact events', gen_events('iact', 'few' if q else 'some', 64), run_events, batch=1, note='every byte of a CORSIKA file'),
        Part('simtel events', gen_events('simtel', 'few' if q else 'some', 64), run_events, batch=1, note='every byte of a sim_telarray file'),
    ]
    if not q:
        out.insert(1, Part('two bytes', gen_block(6, 8), run_block, batch=1, note='two bytes at most 6 apart damaged'))
    return out
