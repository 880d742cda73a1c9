"""C07: a truncated file yields a correct prefix of its objects."""
import os
import warnings

from .. import catalogue, codec, evio, layouts as L
from ..common import canon, check_header, fail, differ, stored
from ..engine import Part

ASSUMPTIONS = [
    'for files whose compressed bytes were cut only the prefix property is claimed, not how much of them can be recovered',
    'parsing an object of which only padding bytes were cut off may succeed, with the full contents',
    'where compressed bytes were cut, reading may also end with an error of the decompressor',
]

LAYOUTS = [
    lambda: [L.mc_event(), L.box(L.photons(2), L.generic(0), L.box(L.meta(), L.generic(3))), L.input_card()],
    lambda: [L.generic(6, ext=True), L.box(L.box(L.box(L.generic(5, ext=True), L.tracking(7))), ext=True), L.generic(0)],
    lambda: [L.generic(0), L.generic(0), L.telescopes(2), L.history_line(b'some text'), L.generic(1)],
    lambda: [L.box(L.history_line(), L.history_line(cfg=True), type_=70), L.meta(3), L.box(), L.box(L.box()), L.aux_digital()],
    lambda: [L.photons(3, long=False), L.box(L.photons(1), L.photons(0), type_=1204), L.pixel_list(5), L.tracking(300, cor=True)],
]
_layouts = {}


def layout(i):
    if i not in _layouts:
        objs = LAYOUTS[i]()
        _layouts[i] = objs, evio.build(objs)
    return _layouts[i]


def parsed(o):
    """canonical parse result, or the kind of refusal"""
    try:
        r = o.parse()
        if hasattr(r, '__next__'):
            r = list(r)
        return canon(r)
    except EOFError:
        return 'EOFError'
    except (NotImplementedError, ValueError) as e:
        return type(e).__name__


_full = {}


def full(i):
    """parse results of the uncut file, by address"""
    from eventio import EventIOFile
    if i not in _full:
        objs, data = layout(i)
        with open('full.dat', 'wb') as f:
            f.write(data)
        out = {}

        def visit(o):
            out[o.address] = parsed(o)
            if o.header.only_subobjects:
                for s in o:
                    visit(s)
        with EventIOFile('full.dat') as f:
            for o in f:
                visit(o)
        _full[i] = out
    return _full[i]


# orders of looking at things
ORDERS = ['at once', 'afterwards', 'headers only', 'parse only']


def gen_cuts(variants, orders):
    def g(c):
        i = c.choose('layout', len(LAYOUTS), free=True)
        data = layout(i)[1]
        cut = 4 + c.choose('cut', len(data) - 4 + 1, free=True)
        return i, cut, c.choose('variant', variants, free=True), c.choose('order', orders, free=True)
    return g


def check_prefix(f, objs, have, what, order, results, ctx, forward=False, complete=True):
    """f: iterable; have: number of stored bytes; complete: all complete objects must be delivered"""
    later = []

    def look(o, m):
        if order == 'headers only':
            return
        try:
            if order != 'parse only':
                if not m.sub or not forward:
                    try:
                        if not forward:
                            o.seek(0)
                            whole = m.payload
                        else:
                            whole = m.payload[o.tell():]
                        b = o.read()
                    except EOFError:
                        b = None
                    if m.end <= have or complete is False and b is not None:
                        if b != whole:
                            fail('{}: payload of {} is {} instead of {}', what, m, b, whole)
                    elif b is not None:
                        fail('{}: read() of {} gives {} although bytes are missing', what, m, b)
            if not (forward and (order != 'parse only' or m.sub)):
                r = parsed(o)
                if m.end <= have:
                    if r != results[m.address]:
                        fail('{}: {} parses to {} instead of {}', what, m, r, results[m.address])
                elif r != 'EOFError' and r != results[m.address]:
                    fail('{}: cut {} parses to {}; uncut {}', what, m, r, results[m.address])
            if not forward and m.end > have and order != 'parse only':
                # what is there can be read
                n = max(0, have - m.address)
                o.seek(0)
                b = o.read(n)
                if b != m.payload[:n]:
                    fail('{}: read({}) of {} gives {} instead of {}', what, n, m, b, m.payload[:n])
        except OSError:
            if not forward and complete:
                raise

    def walk(it, ms, depth):
        n = 0
        ended = None
        while ended is None:
            try:
                o = next(it)
            except StopIteration:
                ended = 'end'
            except EOFError:
                ended = 'EOFError'
            except OSError:
                if not forward and complete:
                    raise
                return
            else:
                if n >= len(ms):
                    fail('{}: more than {} objects at level {}: {}', what, len(ms), depth, o)
                m = ms[n]
                check_header(o, m, what)
                n += 1
                ctx.step()
                if order == 'at once':
                    look(o, m)
                else:
                    later.append((o, m))
                if m.sub and not (forward and order == 'at once'):
                    walk(o, m.children, depth + 1)
        if complete and n < len(ms) and ms[n].end <= have:
            fail('{}: {} at level {} although object {} {} is complete', what, ended, depth, n, ms[n])
        if complete and n < len(ms) and ended == 'end' and (depth or have > ms[n].start):
            fail('{}: ends at level {} as if {} were not there, of which only a part of the header is left', what, depth, ms[n])
        for _ in range(2):
            try:
                x = next(it)
                fail('{}: after {} at level {} object {} is delivered', what, ended, depth, x)
            except (StopIteration, EOFError):
                pass
            except OSError:
                if not forward and complete:
                    raise
        ctx.outcome(ended, depth, n, len(ms))

    walk(f, objs, 0)
    for o, m in later:
        look(o, m)


def run_cuts(cases, ctx):
    from eventio import EventIOFile
    for i, cut, variant, order in cases:
        objs, data = layout(i)
        results = full(i)
        kw = evio.store('cut.dat', data[:cut], variant)
        what = 'layout {} cut after {} of {} bytes, {}, {}'.format(i, cut, len(data), variant, order)
        with EventIOFile('cut.dat', **kw) as f:
            check_prefix(f, objs, cut, what, order, results, ctx, not evio.seekable(variant))
        ctx.state(i, cut, variant, order)


# -------------------------------------------------------------- every kind of block
_blocks = []


def blocks():
    if not _blocks:
        _blocks.extend(catalogue.all_blocks())
    return _blocks


def gen_kinds(nested):
    def g(c):
        i = c.choose('block', len(blocks()), free=True)
        where = c.choose('inside', ['top level', 'container'], free=True) if nested else 'top level'
        return i, where
    return g


def run_kinds(cases, ctx):
    from eventio import EventIOFile
    for i, where in cases:
        name, m, e = blocks()[i]
        objs = [m] if where == 'top level' else [L.box(L.generic(3), m, L.generic(1))]
        data = evio.build(objs)
        path = 'kind.dat'
        with open(path, 'wb') as f:
            f.write(data)
        # from the full length down, to cut in place
        for cut in range(m.end, m.address - 1, -1):
            os.truncate(path, cut)
            what = '{} ({}), {} of {} payload bytes'.format(name, where, cut - m.address, m.size)
            try:
                with EventIOFile(path) as f:
                    o = next(f)
                    if where != 'top level':
                        next(o)
                        o = next(o)
                    ctx.step()
                    try:
                        got = codec.parse(o)
                    except EOFError:
                        got = 'EOFError'
                    if got == 'EOFError' if isinstance(got, str) else False:
                        if cut == m.end:
                            fail('{}: EOFError of a complete block', what)
                    else:
                        d = differ(got, e)
                        if d:
                            fail('{}: parsed to something else than the complete block: {}', what, d)
                    ctx.outcome(name, isinstance(got, str))
                    if cut < m.end:
                        o.seek(0)
                        try:
                            b = o.read()
                        except EOFError:
                            pass
                        else:
                            fail('{}: read() gives {}', what, b)
            except EOFError:
                # some kinds read the start of their payload when they are created
                if cut >= m.end:
                    raise
            ctx.state(name, where, cut)


def all_specs():
    from .. import specs
    out = {}
    for table in catalogue.TABLES:
        out.update(getattr(specs, table))
    return out


def gen_more():
    g0 = codec.gen_spec(all_specs(), 0)

    def g(c):
        return g0(c)
    return g


def run_more(cases, ctx):
    from eventio import EventIOFile
    for name, m, e in cases:
        if isinstance(e, codec.Raises):
            continue
        data = evio.build([m])
        with open('more.dat', 'wb') as f:
            f.write(data)
        for cut in range(m.end - 1, m.address - 1, -1):
            os.truncate('more.dat', cut)
            with EventIOFile('more.dat') as f:
                ctx.step()
                try:
                    got = codec.parse(next(f))
                except EOFError:
                    continue
                d = differ(got, e)
                if d:
                    fail('{} version {} id {}, {} of the {} payload bytes {}: parsed to something else than the complete block: {}',
                         name, m.version, m.id, cut - m.address, m.size, m.payload.hex(), d)
        ctx.state(name, m.payload)
        ctx.outcome(name, m.size)


# -------------------------------------------------------------- cut compressed bytes
def gen_packed(c):
    i = c.choose('layout', len(LAYOUTS), free=True)
    kind = c.choose('compression', ['gz', 'gz in two members', 'zst', 'zst in two frames'], free=True)
    zcat = c.flag('zcat', True) if kind.startswith('gz') else False
    data = layout(i)[1]
    h = len(data) // 2
    packed = {'gz': lambda: evio.gz(data), 'gz in two members': lambda: evio.gz_multi(data, [h]),
              'zst': lambda: evio.zst(data), 'zst in two frames': lambda: evio.zst_multi(data, [h])}[kind]()
    cut = c.choose('cut', len(packed), free=True)
    return i, kind, zcat, packed[:cut]


def run_packed(cases, ctx):
    import zlib
    import zstandard
    from eventio import EventIOFile
    for i, kind, zcat, packed in cases:
        objs, data = layout(i)
        with open('packed.dat', 'wb') as f:
            f.write(packed)
        what = 'layout {} as {}{}, cut after {} compressed bytes'.format(i, kind, ' by program' if zcat else '', len(packed))
        try:
            f = EventIOFile('packed.dat', zcat=zcat)
        except (ValueError, EOFError, OSError, zlib.error, zstandard.ZstdError) as e:
            ctx.outcome(type(e).__name__)
            continue
        with f:
            check_prefix(f, objs, 0, what, 'at once', full(i), ctx, zcat or kind.startswith('zst'), complete=False)
        ctx.state(i, kind, zcat, len(packed))


# -------------------------------------------------------------- real files
def gen_real(c):
    p = c.choose('file', codec.resource_files(os.environ['MC_REPO']), free=True)
    return p, c.choose('window', 24, free=True)


def run_real(cases, ctx):
    """cuts around the borders of the objects of a real file, one object kind after another"""
    from eventio import EventIOFile
    for p, window in cases:
        data = codec.content(p)
        if data is None:
            continue
        tops = codec.complete_objs(data)
        kinds = {}
        for m in tops:
            for s in m.walk():
                if s.size < 2000000:
                    kinds.setdefault((s.type if s.type not in evio.TEL_EVENT and s.type not in evio.TRACKING else 2200, s.version), (m, s))
        todo = sorted(kinds.items())[window::24]
        for key, (m, s) in todo:
            a = m.start
            path = 'real.dat'
            with open(path, 'wb') as f:
                f.write(data[a:m.end])
            chain = chain_to(m, s)
            want = None
            cuts = sorted({s.end, s.end - 1, s.address + s.size // 2, s.address + 1, s.address, s.end - 4, s.end - 5}, reverse=True)
            for cut in cuts:
                if not s.address <= cut <= s.end:
                    continue
                os.truncate(path, cut - a)
                what = '{}: {} at {} of {} payload bytes'.format(os.path.basename(p), s, cut - s.address, s.size)
                with EventIOFile(path) as f:
                    try:
                        o = next(f)
                        for k in chain:
                            for _ in range(k):
                                next(o)
                            o = next(o)
                    except EOFError:
                        if cut == s.end:
                            fail('{}: cannot be reached', what)
                        continue
                    ctx.step()
                    r = parsed(o)
                    if cut == s.end:
                        want = r
                    elif r != 'EOFError' and r != want:
                        fail('{}: parses to something else than the complete block', what)
                    o.seek(0)
                    try:
                        b = o.read()
                    except EOFError:
                        b = None
                    if b != (s.payload if cut == s.end else None):
                        fail('{}: read() gives {}', what, b)
                ctx.state(p, key, cut)
            ctx.outcome(key)


def chain_to(m, s):
    if m is s:
        return []
    for i, x in enumerate(m.children or ()):
        r = chain_to(x, s)
        if r is not None:
            return [i] + r
    return None


def parts(tier):
    q = tier == 'quick'
    return [
        Part('kinds', gen_kinds(not q), run_kinds, batch=1, note='one block of every kind and version, cut at every byte'),
        Part('variants of kinds', gen_more(), run_more, bound=0 if q else 1, batch=16,
             note='all versions, flags and main counts of every kind of block, {}cut at every byte'.format('' if q else 'one other count, ')),
        Part('cuts', gen_cuts(['plain', 'gzip', 'zst'], ORDERS), run_cuts, batch=16,
             note='{} layouts cut at every byte, {} orders of access'.format(len(LAYOUTS), len(ORDERS))),
        Part('cuts by program', gen_cuts(['zcat'] if q else ['zcat', 'zcat2', 'zst2', 'gzip2'], ORDERS[:1] if q else ORDERS), run_cuts, batch=16,
             note='the same read through the gzip program'),
        Part('cut compressed bytes', gen_packed, run_packed, batch=16, note='compressed files cut at every byte'),
        Part('real files', gen_real, run_real, batch=1, note='every kind of object of every resource file, cut at 6 places'),
    ]
