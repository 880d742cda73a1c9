"""C05: peeking never changes what is delivered."""
import struct

from .. import catalogue, evio, layouts as L
from ..common import fail, stored, caught
from ..engine import Part

ASSUMPTIONS = ['the run without peeks is compared with the stored objects by C02 and C07',
               'whether a peek has to warn is required only where stepping without peeking ends with an error']

LAYOUTS = [
    lambda: [L.mc_event(), L.box(L.generic(3)), L.generic(2, ext=True)],
    lambda: [L.generic(0), L.generic(4, type_=70), L.input_card(b'abc'), L.photons(1)],
]
_layouts = {}


def layout(i):
    if i not in _layouts:
        objs = LAYOUTS[i]()
        _layouts[i] = (evio.build(objs), objs)
    return _layouts[i]


PAYLOADS = (b'', bytes(4), bytes(16), b'\xff' * 16)


def gen_types(types, variants):
    """objects of every type, also ones that are empty or say that they have nothing"""
    def g(c):
        type_ = c.choose('type', types, free=True)
        payload = c.choose('payload', PAYLOADS, free=True)
        version = c.choose('version', (0, 1, 2), free=True)
        variant = c.choose('variant', variants, free=True)
        peeks = c.choose('peeks', ((1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1), (0, 2, 0, 1)), free=True)
        ident = c.choose('id', (5, type_ % 100 + (type_ - 2100) // 1000 * 100 if type_ >= 2100 else 6), free=True)
        objs = [evio.Obj(type_, payload, version=version, ident=ident), evio.Obj(type_, payload, version=version, ident=ident), L.generic(3)]
        return 'type {} v{} {}'.format(type_, version, payload.hex()), evio.build(objs), variant, peeks, 3
    return g


def describe(o):
    h = o.header
    return (type(o).__name__, h.type, h.version, h.id, h.user, h.extended, h.only_subobjects, o.address, o.size)


def payload(o, variant):
    try:
        o.seek(0)
    except OSError:
        if evio.seekable(variant):
            raise
        return 'cannot go back'
    try:
        return o.read()
    except EOFError:
        return 'truncated'


_reference = {}


def reference(path, kw, n, variant):
    """what stepping delivers without any peek"""
    from eventio import EventIOFile
    if path not in _reference:
        out = []
        with EventIOFile(path, **kw) as f:
            try:
                for o in f:
                    b = payload(o, variant)
                    out.append((describe(o), b))
                end = 'end'
            except (EOFError, OSError, ValueError, NotImplementedError) as e:
                end = type(e).__name__
        if len(out) > n:
            fail('{}: {} objects instead of {}', path, len(out), n)
        _reference[path] = (out, end)
    return _reference[path]


def gen(variants, layouts, free_peeks, damage, every=1, kinds=(0, 1, 2)):
    def g(c):
        i = c.choose('layout', layouts, free=True)
        variant = c.choose('variant', variants, free=True)
        data, objs = layout(i)
        if damage:
            k = c.choose('damaged object', len(objs) + 1, free=True)
            if k:
                pos = objs[k - 1].start if k > 1 else objs[1].start
                what = c.choose('damage', ['sync', 'big endian'], free=True)
                data = data[:pos] + (b'\x38' + data[pos + 1:pos + 4] if what == 'sync' else evio.SYNC_BE) + data[pos + 4:]
        else:
            cuts = sorted(set(range(12, len(data), every)) | {o.start for o in objs[1:]} | {len(data)}, reverse=True)
            data = data[:c.choose('cut', cuts, free=True)]
        peeks = []
        for _ in range(len(objs) + 2):
            peeks.append(c.choose('peeks', kinds, free=free_peeks))
        return i, data, variant, peeks, len(objs)
    return g


def run(cases, ctx):
    from eventio import EventIOFile
    for i, data, variant, peeks, n in cases:
        path, kw = stored(data, variant)
        try:
            ref, end = reference(path, kw, n, variant)
        except struct.error:
            end = 'no object'
        if isinstance(i, str) and end != 'end':
            # not a well-formed object of this type
            ctx.outcome(end)
            continue
        with EventIOFile(path, **kw) as f:
            k = 0
            for number in peeks:
                what = 'layout {} {} {} of {} bytes, peeks {}, object {}'.format(
                    i, variant, len(data), len(layout(i)[0]) if i in _layouts else len(data), peeks, k)
                seen = []
                raised = False
                with caught() as w:
                    for _ in range(number):
                        try:
                            seen.append(f.peek())
                        except (ValueError, NotImplementedError) as e:
                            if k < len(ref) or end not in ('ValueError', 'NotImplementedError'):
                                fail('{}: peek raises {!r}', what, e)
                            raised = True
                        ctx.step()
                if k < len(ref):
                    if any(s is None for s in seen):
                        fail('{}: peek gives None', what)
                    if any(s is not seen[0] for s in seen):
                        fail('{}: repeated peeks give different objects', what)
                else:
                    if any(s is not None for s in seen):
                        fail('{}: peek gives {} at the end', what, seen)
                    if seen and end in ('EOFError', 'OSError') and not w:
                        fail('{}: peek at the end of the truncated file does not warn', what)
                ctx.state(i, variant, len(data), k, number)
                try:
                    o = next(f)
                except StopIteration:
                    if k < len(ref) or end != 'end':
                        fail('{}: ends instead of {}', what, describe_ref(ref, end, k))
                    ctx.outcome('end', k)
                    break
                except (EOFError, OSError, ValueError, NotImplementedError) as e:
                    if k < len(ref) or not (type(e).__name__ == end or raised and isinstance(e, OSError)):
                        fail('{}: {!r} instead of {}', what, e, describe_ref(ref, end, k))
                    ctx.outcome(type(e).__name__, k)
                    break
                if k >= len(ref):
                    fail('{}: {} instead of {}', what, o, end)
                if seen and o is not seen[0]:
                    fail('{}: the step delivers another object than the peek', what)
                b = payload(o, variant)
                if (describe(o), b) != ref[k]:
                    fail('{}: {} instead of {}', what, (describe(o), b), ref[k])
                k += 1
            # peeking after the end
            with caught():
                try:
                    x = f.peek()
                except (ValueError, NotImplementedError, OSError):
                    x = None
            if k >= len(ref) and x is not None:
                fail('layout {} {}: peek after the end gives {}', i, variant, x)


def describe_ref(ref, end, k):
    return ref[k] if k < len(ref) else end


def parts(tier):
    q = tier == 'quick'
    known = sorted({o.type for _, o, _ in catalogue.all_blocks(False)} | {1206, 1207, 70, 2010, 2028, 2034, 1204, 1213, 1214, 2033, 2031, 2200, 2299})
    every = sorted(set(range(0, 3400, 1)) | set(range(3400, 70000, 97)))
    return [
        Part('types', gen_types(known if q else every, ['plain']), run, batch=64,
             note='objects of {} types with {} payloads'.format(len(known) if q else len(every), len(PAYLOADS))),
        Part('types, streams', gen_types(known, ['gzip', 'zst'] if q else ['gzip', 'zst', 'zcat']), run, batch=64),
        Part('plain', gen(['plain'], [0, 1], True, False), run, batch=16,
             note='every cut byte x all patterns of 0-2 peeks before each step'),
        Part('streams', gen(['gzip', 'zst', 'zst2'], [0, 1], False, False), run, bound=3 if q else 4, batch=16,
             note='every cut of the content, at most {} gaps with peeks'.format(3 if q else 4)),
        Part('pipe', gen(['zcat'], [0, 1] , False, False, every=1), run, bound=2 if q else 3, batch=8,
             note='gzip process, every cut, at most {} gaps with peeks'.format(2 if q else 3)),
        Part('damaged', gen(['plain', 'gzip', 'zst', 'zcat'], [0, 1], False, True), run, bound=3 if q else 4, batch=8,
             note='damaged and big-endian markers before each object'),
    ]
