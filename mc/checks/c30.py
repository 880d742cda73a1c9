"""C30: telescope ids are recovered exactly."""
from .. import catalogue, codec, evio, events as E, layouts as L
from ..common import caught, check_same, fail
from ..engine import Part
from . import c27

TECHNIQUE = 'exhaustive enumeration of telescope ids and id fields on the real readers, against the documented encodings'
ASSUMPTIONS = ['ids coded in type numbers are 0 to 999']

# name: (kind of the catalogue, [(bits, shift of the stored part)], versions); the parts of a telescope id in the id field
FULL = [(31, 0)]
FIELDS = {
    2002: FULL, 2003: FULL, 2004: FULL, 2005: FULL, 2006: FULL, 2007: FULL, 2008: FULL, 2011: FULL, 2016: FULL,
    2023: FULL, 2032: FULL, 2033: FULL,
    2012: [(16, 12)], 2013: [(16, 12)],
    2014: [(8, 0), (6, 24)], 2022: [(8, 0), (6, 24)],
}
# kinds whose id is a decimal combination: id = k * factor + telescope
DECIMAL = {1205: (1000, 'array_id'), 1208: (1000, 'array_id'), 2027: (1000000, 'code')}


def encode(fields, tel):
    out = 0
    for bits, shift in fields:
        out |= (tel & (1 << bits) - 1) << shift
        tel >>= bits
    return out


def field_mask(fields):
    return encode(fields, -1)


def boundary_ids(bits):
    out = {0, 1, 2, (1 << bits) - 1, (1 << bits) - 2}
    for k in range(1, bits):
        out.update((1 << k, (1 << k) - 1, (1 << k) + 1, (1 << bits) - 1 - (1 << k)))
    out.update(i for i in (5, 10, 99, 100, 101, 105, 127, 999, 1000, 1001, 1024) if i < 1 << bits)
    return sorted(i for i in out if 0 <= i < 1 << bits)


_blocks = {}


def blocks():
    if not _blocks:
        for name, obj, e in catalogue.all_blocks():
            if obj.type in FIELDS or obj.type in DECIMAL:
                _blocks.setdefault(obj.type, []).append((name, obj, e))
        # ADC sums written by the first versions: the id is read, the data are not
        for version in (0, 1, 2):
            obj = evio.Obj(2012, b'\x01\0\0\0\0\0\0\0', version=version, ident=7 << 25 | 0x3ff)
            _blocks[2012].append(('adc sums of version {}'.format(version), obj, {}))
    return _blocks


def fields_of(obj):
    return [(5, 25)] if obj.type == 2012 and obj.version <= 1 else FIELDS[obj.type]


def renamed(obj, ident):
    return evio.Obj(obj.type, obj.payload, version=obj.version, ident=ident, user=obj.user, ext=obj.ext)


# ------------------------------------------------------------------ ids in the id field
def gen_fields(all_ids):
    def g(c):
        t = c.choose('type', sorted(set(FIELDS) | set(DECIMAL)), free=True)
        i = c.choose('block', len(blocks()[t]), free=True)
        nested = c.choose('nested', (False, True), free=True)
        other = c.choose('other bits', ('stored', 'inverted'), free=True)
        n = 8 if all_ids and t in FIELDS and FIELDS[t] is not FULL else 1
        return t, i, nested, other, c.choose('range', n, free=True), n
    return g


def read_objects(path, nested):
    from eventio import EventIOFile
    with EventIOFile(path) as f:
        if nested:
            yield from next(f)
        else:
            yield from f


def run_fields(cases, ctx):
    for t, i, nested, other, part, n in cases:
        name, obj, e = blocks()[t][i]
        ids = []
        if t in FIELDS:
            fields = fields_of(obj)
            bits = sum(b for b, _ in fields)
            mask = field_mask(fields)
            base = obj.id & 0xffffffff
            rest = base & ~mask
            if other == 'inverted':
                rest = ~base & ~mask & (0xffffffff if fields is not FULL else 0)
            tels = boundary_ids(bits) if n == 1 else range((1 << bits) * part // n, (1 << bits) * (part + 1) // n)
            for tel in tels:
                v = encode(fields, tel) | rest
                ids.append((v - (1 << 32) if v >> 31 else v, tel, None))
            few = set(boundary_ids(bits))
        else:
            factor, attr = DECIMAL[t]
            if t == 1205 and obj.id == 999999:
                continue
            firsts = [0, 1, 2, 999, 1000, 2 ** 31 // factor - 1] if other == 'stored' else [5, 77, 256]
            rests = range(factor) if factor == 1000 else boundary_ids(19) + list(range(1000))
            for a in firsts:
                for tel in rests:
                    if (a, tel) != (999, 999):
                        ids.append((a * factor + tel, tel, (attr, a)))
            few = set(boundary_ids(10))
        parse = other == 'stored' and t != 1205
        objs = [renamed(obj, v) for v, _, _ in ids]
        with open('ids.dat', 'wb') as f:
            f.write(evio.build([L.box(*objs)] if nested else objs))
        what = '{} nested={} other bits {}'.format(name, nested, other)
        k = 0
        with caught():
            for o in read_objects('ids.dat', nested):
                v, tel, extra = ids[k]
                if o.header.id != v:
                    fail('{}: id {} instead of {}', what, o.header.id, v)
                if o.telescope_id != tel:
                    fail('{}: id {:#x}: telescope {} instead of {}', what, v, o.telescope_id, tel)
                if extra and getattr(o, extra[0]) != extra[1]:
                    fail('{}: id {}: {} {} instead of {}', what, v, extra[0], getattr(o, extra[0]), extra[1])
                if str(tel) not in str(o):
                    fail('{}: id {:#x}: telescope {} is not named in {}', what, v, tel, o)
                if parse and tel in few and 'telescope_id' in (e if isinstance(e, dict) else ()):
                    r = codec.parse(o)
                    if r['telescope_id'] != tel:
                        fail('{}: id {:#x}: parsed telescope {} instead of {}', what, v, r['telescope_id'], tel)
                    ctx.step()
                k += 1
                ctx.step()
        if k != len(ids):
            fail('{}: {} objects instead of {}', what, k, len(ids))
        ctx.state(name, nested, other, part, len(ids))
        ctx.outcome(t, len(ids))


# ------------------------------------------------------------------ ids in the type number
def tracking_payload(raw, cor):
    import struct
    return struct.pack('<{}f'.format(2 * (raw + cor)), *range(1, 1 + 2 * (raw + cor)))


NOISE = [0] + [1 << b for b in list(range(10, 24)) + [30, 31]] + [0xc0fffc00]


def gen_types(c):
    return (c.choose('kind', ('telescope event', 'tracking'), free=True), c.choose('range', 20, free=True),
            c.choose('nested', (False, True), free=True))


def run_types(cases, ctx):
    from eventio.simtel import TelescopeEvent, TrackingPosition
    for kind, part, nested in cases:
        cls = TelescopeEvent if kind == 'telescope event' else TrackingPosition
        objs, tels = [], []
        for tel in range(part * 50, part * 50 + 50):
            if kind == 'tracking':
                t = 2100 + tel % 100 + 1000 * (tel // 100)
                for raw in (0, 1):
                    for cor in (0, 1):
                        for noise in NOISE:
                            i = evio.tracking_id(tel, raw << 8 | cor << 9) | noise
                            objs.append(evio.Obj(t, tracking_payload(raw, cor), ident=i - (1 << 32) if i >> 31 else i))
                            e = {'telescope_id': tel}
                            if raw:
                                e.update(azimuth_raw=1.0, altitude_raw=2.0)
                            if cor:
                                e.update(azimuth_cor=1.0 + 2 * raw, altitude_cor=2.0 + 2 * raw)
                            tels.append((tel, e))
            else:
                t = 2200 + tel % 100 + 1000 * (tel // 100)
                for ident in (0, 1, -1, 999, 2 ** 31 - 1):
                    objs.append(evio.Obj(t, [L.generic(4)], ident=ident))
                    tels.append((tel, ident))
            if cls.telid_to_type(tel) != t or cls.type_to_telid(t) != tel:
                fail('{}: telescope {} and type {}: {} {}', kind, tel, t, cls.telid_to_type(tel), cls.type_to_telid(t))
        with open('types.dat', 'wb') as f:
            f.write(evio.build([L.box(*objs)] if nested else objs))
        k = 0
        with caught():
            for o in read_objects('types.dat', nested):
                tel, e = tels[k]
                if type(o) is not cls:
                    fail('{} of telescope {} is taken for {}', kind, tel, type(o))
                if o.telescope_id != tel or str(tel) not in str(o):
                    fail('{} of telescope {} has telescope id {} and is {}', kind, tel, o.telescope_id, o)
                if kind == 'tracking':
                    check_same(o.parse(), e, 'tracking position of telescope {}'.format(tel))
                elif o.global_count != e:
                    fail('{} of telescope {} has count {} instead of {}', kind, tel, o.global_count, e)
                k += 1
                ctx.step()
        if k != len(tels):
            fail('{}: {} objects instead of {}', kind, k, len(tels))
        ctx.state(kind, part, nested)
        ctx.outcome(kind, k)


# ------------------------------------------------------------------ run and event numbers, kinds and flags
NUMBERS = {
    2000: ('run_id', lambda i: i), 2009: ('global_count', lambda i: i), 2010: ('event_id', lambda i: i), 2028: ('type', lambda i: i),
    1205: ('array_id', lambda i: i // 1000), 1208: ('array_id', lambda i: i // 1000), 2027: ('code', lambda i: i // 1000000),
    2101: ('has_raw', lambda i: bool(i & 0x100)), 2201: ('global_count', lambda i: i),
}


def gen_numbers(c):
    return c.choose('type', sorted(NUMBERS), free=True), c.choose('nested', (False, True), free=True)


def run_numbers(cases, ctx):
    for t, nested in cases:
        attr, f = NUMBERS[t]
        ids = [i for b in boundary_ids(31) for i in (b, -b - 1)]
        if t in DECIMAL:
            ids = sorted({i for i in ids if i >= 0} | {k * DECIMAL[t][0] + r for k in (0, 1, 7, 255, 256, 999) for r in (0, 1, 999)})
        elif t == 2101:
            ids = [evio.tracking_id(1, flags) | i & 0xfffc00 for i in ids for flags in (0, 0x100, 0x200, 0x300)]
        payload = b'\0' * 24
        with open('numbers.dat', 'wb') as g:
            objs = [evio.Obj(t, [L.generic(4)] if t in (2010, 2028, 2201) else payload, ident=i) for i in ids]
            g.write(evio.build([L.box(*objs)] if nested else objs))
        k = 0
        with caught():
            for o in read_objects('numbers.dat', nested):
                got = getattr(o, attr)
                if got != f(ids[k]):
                    fail('type {} with id {}: {} is {}', t, ids[k], attr, got)
                k += 1
                ctx.step()
        if k != len(ids):
            fail('type {}: {} objects instead of {}', t, k, len(ids))
        ctx.state(t, nested)
        ctx.outcome(t, k)


# ------------------------------------------------------------------ no other type number is one
def gen_others(c):
    return c.choose('range', 64, free=True)


def run_others(cases, ctx):
    from eventio import EventIOFile
    from eventio.simtel import TelescopeEvent, TrackingPosition
    for part in cases:
        types = [t for t in range(part * 1024, part * 1024 + 1024) if t not in evio.TRACKING and t not in evio.CLASSES]
        with open('other.dat', 'wb') as f:
            f.write(evio.build([evio.Obj(t, bytes(16)) for t in types]))
        with EventIOFile('other.dat') as f:
            for t, o in zip(types, f):
                want = TelescopeEvent if t in evio.TEL_EVENT else None
                if o.header.type != t or want and type(o) is not want or \
                        not want and isinstance(o, (TelescopeEvent, TrackingPosition)):
                    fail('type {} is taken for {}', t, type(o))
                ctx.step()
        ctx.state(part)
        ctx.outcome(len(types))


# ------------------------------------------------------------------ two encodings that disagree
def gen_mismatch(step):
    def g(c):
        return c.choose('telescope', 1000, free=True), step
    return g


def run_mismatch(cases, ctx):
    from eventio import EventIOFile
    for tel, q in cases:
        t = 2100 + tel % 100 + 1000 * (tel // 100)
        if q:
            ids = {tel ^ 1 << b for b in range(14)} | {tel + 1, tel - 1, tel + 100, tel - 100, 0, 16383, 999 - tel,
                                                       tel % 100, tel % 256, tel + 1000, tel // 256, tel * 256 % 16384}
        else:
            ids = set(range(16384))
        for i in sorted(i for i in ids if 0 <= i < 16384):
            for nested in (False, True) if q else (False,):
                if nested and i % 7:
                    continue
                o = evio.Obj(t, tracking_payload(1, 1), ident=evio.tracking_id(i))
                with open('m.dat', 'wb') as f:
                    f.write(evio.build([L.box(o)] if nested else [o]))
                try:
                    with EventIOFile('m.dat') as f:
                        x = next(f)
                        if nested:
                            x = next(x)
                        got = x.telescope_id
                except ValueError as e:
                    got = None
                if got != (tel if i == tel else None):
                    fail('tracking position with type {} (telescope {}) and id of telescope {}: {}', t, tel, i,
                         'refused' if got is None else 'telescope {}'.format(got))
                ctx.step()
        ctx.state(tel)
        ctx.outcome('refused')


# ------------------------------------------------------------------ all ids through the event readers
def gen_events(step):
    def g(c):
        return c.choose('telescope', range(0, 1000, step), free=True)
    return g


def run_events(cases, ctx):
    from eventio import IACTFile, SimTelFile
    for tel in cases:
        other = (tel + 100) % 1000
        tels = (tel, other)
        blocks = [E.history(), E.metadata(-1), E.metadata(tel, 1), E.metadata(other, 2), E.run_header(2)]
        for t in tels:
            blocks += E.descriptions(t)
        start = len(blocks)
        for t in tels:
            blocks += [E.camera_monitoring(t), E.laser_calibration(t), E.pixel_monitoring(t)]
        blocks += [E.shower(1), E.mc_event(100), E.telescope_data([E.photoelectrons(t) for t in tels] + [E.photons(t) for t in tels])]
        blocks.append(E.array_event(100, E.trigger_information(100, tels, tels), [E.telescope_event(t) for t in tels],
                                    [E.tracking(t) for t in tels]))
        expected = E.simtel_events(blocks, start)
        path, _ = c27.write(blocks, 'plain', 'tel.dat')
        with caught(), SimTelFile(path) as f:
            for name, e in E.header_results(blocks, start).items():
                check_same(getattr(f, name), e, 'telescopes {}: {}'.format(tels, name))
            events = list(f)
            check_same(events, expected, 'telescopes {}'.format(tels))
        ctx.step(3)
        blocks = E.iact_header(2)
        start = len(blocks)
        blocks += [E.event_header(1), E.offsets(1), E.telescope_data([E.photons(t) for t in tels]), E.event_end(1), E.run_end()]
        expected = E.iact_events(blocks, start)
        path, _ = c27.write(blocks, 'plain', 'iact.dat')
        with caught(), IACTFile(path) as f:
            check_same([e._asdict() for e in f], expected, 'telescopes {}'.format(tels))
        ctx.state(tel)
        ctx.outcome(len(events))
        E._cache.clear()


def parts(tier):
    q = tier == 'quick'
    return [
        Part('id field', gen_fields(True), run_fields, batch=1,
             note='every value of the bit fields, all bit boundaries of whole ids'),
        Part('type number', gen_types, run_types, batch=1, note='all 1000 ids, all other bits of the id field'),
        Part('numbers', gen_numbers, run_numbers, batch=1, note='run, event and array numbers, kinds and flags taken from the id, at all bits'),
        Part('other type numbers', gen_others, run_others, batch=1, note='all 65536'),
        Part('disagreement', gen_mismatch(q), run_mismatch, batch=8,
             note='all type-coded ids with {}'.format('all flipped bits of the other' if q else 'all 16384 others')),
        Part('events', gen_events(1), run_events, batch=4, note='every id as key of all parts of an event'),
    ]
