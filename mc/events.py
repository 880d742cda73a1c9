"""Files for the event readers, block by block, and the events they hold.

`block` makes a stored object together with its meaning (from the reference layouts).
`simtel_events` and `iact_events` are reference assemblers: they look at the whole list
of blocks at once and cut it into events, they share nothing with the readers under test.
"""
import numpy as np

from . import codec, evio, specs
from .common import Rec, Arr, AnyOf, ANY
from .engine import Chooser, HarnessError


class Values(Chooser):
    """default answers, except for the given names, which are answered by value"""

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.used = set()

    def choose(self, name, options, free=False):
        name = name.replace('_', ' ')
        if name in self.values:
            self.used.add(name)
            return self.values[name]
        return 0 if isinstance(options, int) else options[0]


class Block:
    """kind: name of the layout; value: expected parse result; tel: telescope; parts: sub-blocks"""
    __slots__ = ('kind', 'obj', 'data', 'value', 'tel', 'parts', 'ident', 'extra')

    def __init__(self, kind, obj, value=None, tel=None, parts=(), extra=None):
        self.kind = kind
        self.obj = obj
        self.value = value
        self.tel = tel
        self.parts = list(parts)
        self.ident = obj.id
        self.extra = extra
        self.data = obj.build()

    def __repr__(self):
        return self.kind + ('' if self.tel is None else ' %d' % self.tel) + (' %d' % self.ident if self.ident else '')


class Fixed(codec.Writer):
    """numbers given by name are stored as they are"""

    def num(self, name, fmt, n=None, free=False, alts=None, top=1 << 32):
        values = self.c.values
        key = name.replace('_', ' ')
        if n is None and key in values:
            self.c.used.add(key)
            self.put(fmt, values[key])
            return values[key]
        return codec.Writer.num(self, name, fmt, n, free, alts, top)


_cache = {}


def block(table, name, tag=0, tel=None, **values):
    """a block of a kind; tag makes its values distinct"""
    key = table, name, tag, tel, tuple(sorted((k, repr(v)) for k, v in values.items()))
    if key not in _cache:
        type_, spec = getattr(specs, table)[name]
        v = {k.replace('_', ' '): x for k, x in values.items()}
        c = Values(v)
        w = Fixed(c, type_)
        w.tag = 13 * tag
        value = spec(w)
        if c.used != set(v):
            raise HarnessError('{}: unused {}'.format(name, set(v) - c.used))
        obj = evio.Obj(type_, bytes(w.b), version=w.version_, ident=w.ident_)
        _cache[key] = Block(name, obj, value, tel)
    return _cache[key]


def group(kind, type_, parts, ident=0, tel=None, version=0, extra=None):
    """a container"""
    key = 'group', kind, type_, tuple(id(p) for p in parts), ident, tel, version, extra
    if key not in _cache:
        obj = evio.Obj(type_, [p.obj for p in parts], version=version, ident=ident)
        # the sub-blocks are kept, so their id() stays unique
        _cache[key] = Block(kind, obj, None, tel, parts, extra)
    return _cache[key]


def generic(n=8, type_=60000, ident=5):
    from . import layouts
    key = 'generic', n, type_, ident
    if key not in _cache:
        _cache[key] = Block('unknown', layouts.generic(n, type_, ident))
    return _cache[key]


def content(blocks):
    return b''.join(b.data for b in blocks)


# ------------------------------------------------------------------ blocks of a sim_telarray file
def history(tag=0, n=2):
    parts = [block('C25', 'history configuration' if i else 'history command line', tag * 5 + i) for i in range(n)]
    return group('history', 70, parts)


def metadata(ident, tag=0):
    return block('C25', 'history metadata', tag, id=ident)


def run_header(n_telescopes, tag=0, version=1):
    return block('C19', 'run header', tag, n_telescopes=n_telescopes, version=version)


def mc_run_header(tag=0):
    return block('C19', 'mc run header', tag)


def input_card(tag=0):
    return block('C16', 'input card', tag)


def profile(tag=0, version=1):
    return block('C16', 'atmospheric profile', tag, id=1 + tag, version=version)


DESCRIPTIONS = {
    'camera settings': 'camera_settings', 'camera organization': 'camera_organization',
    'pixel settings': 'pixel_settings', 'disabled pixels': 'disabled_pixels',
    'software settings': 'camera_software_settings', 'drive settings': 'drive_settings',
    'pointing correction': 'pointing_correction',
}


def description(name, tel, tag=0):
    return block('C19', name, tag + 3 * tel, tel, id=tel)


def descriptions(tel, tag=0):
    return [description(name, tel, tag) for name in DESCRIPTIONS]


def camera_monitoring(tel, tag=0, what=0x7f):
    return block('C23', 'camera monitoring', tag + 7 * tel, tel, telescope=tel, what=what)


def laser_calibration(tel, tag=0, version=3):
    return block('C23', 'laser calibration', tag + 7 * tel, tel, id=tel, version=version)


def pixel_monitoring(tel, tag=0, flags=0xff):
    return block('C23', 'pixel monitoring', tag + 7 * tel, tel, id=tel, flags=flags)


def shower(number, tag=0, version=1):
    return block('C24', 'mc shower', tag + number, id=number, version=version)


def particles(tag=0, n=2):
    return block('C17', 'particles', tag, bunches=n)


def mc_event(ident, tag=0):
    return block('C24', 'mc event', tag + ident, id=ident, version=2)


def pe_sum(ident, tag=0):
    return block('C24', 'mc photoelectron sum', tag + ident, id=ident, version=2)


def photoelectrons(tel, tag=0, version=3, flags=1):
    counts = (1 + tag % 2, 0, 2)
    return block('C18', 'photo-electrons', tag + tel, tel, id=1000 + tel, version=version, pixels=3, flags=flags,
                 distribution=counts)


def photons(tel, tag=0, emitters=0, n=2, array=1, compact=False):
    key = 'photons', tel, tag, emitters, n, array, compact
    if key not in _cache:
        more = {'emitters': emitters} if n else {}
        _cache[key] = block('C17', 'photon bunches', tag + 11 * tel, tel, id=array * 1000 + tel, array=array,
                            telescope=tel, bunches=n, version=1000 if compact else 0, **more)
    return _cache[key]


def telescope_data(parts, ident=0):
    return group('telescope data', 1204, parts, ident)


def trigger_information(ident, triggered, with_data, tag=0, version=2):
    """ident: of the header, may be 0"""
    from .codec import Writer
    key = 'trigger', ident, tuple(triggered), tuple(with_data), tag, version
    if key not in _cache:
        n, m = len(triggered), len(with_data)

        class W(Writer):
            def arr(self, name, fmt, *shape, alts=None):
                if name == 'tels':
                    return self.fixed(fmt, triggered)
                if name == 'data':
                    return self.fixed(fmt, with_data)
                return Writer.arr(self, name, fmt, *shape, alts=alts)

            def fixed(self, fmt, v):
                a = np.array(v, '<' + fmt)
                self.b += a.tobytes()
                return Arr(a)

        w = W(Values({'n trg': n, 'n data': m, 'version': version}), 2009)
        w.tag = 13 * tag
        w.reading = True       # the layout would make the telescope list distinct, it already is
        value = specs.trigger_information(w)
        obj = evio.Obj(2009, bytes(w.b), version=w.version_, ident=ident)
        _cache[key] = Block('trigger information', obj, value, None, extra=(tuple(triggered), tuple(with_data)))
    return _cache[key]


PIECES = ('header', 'samples', 'sums', 'image', 'timing', 'list', 'list2', 'times', 'digital', 'digital2', 'analog')


def piece(name, tel, tag=0):
    t = tag + 5 * tel
    if name == 'header':
        return block('C20', 'telescope event header', t, tel, id=tel, version=2)
    if name == 'samples':
        return block('C21', 'adc samples', t, tel, telescope=tel)
    if name == 'sums':
        return block('C21', 'adc sums', t, tel, telescope=tel)
    if name == 'image':
        return block('C20', 'image parameters', t, tel, telescope=tel, parts=15)
    if name == 'timing':
        return block('C22', 'pixel timing', t, tel, id=tel)
    if name == 'list':
        return block('C20', 'pixel list', t, tel, id=tel, version=1)
    if name == 'list2':
        return block('C20', 'pixel list', t + 1, tel, id=2000000 + tel, version=1)
    if name == 'times':
        return block('C20', 'pixel trigger times', t, tel, id=tel)
    if name == 'digital':
        return block('C20', 'auxiliary digital traces', t, tel, id=1)
    if name == 'digital2':
        return block('C20', 'auxiliary digital traces', t + 1, tel, id=2)
    if name == 'analog':
        return block('C20', 'auxiliary analog traces', t, tel, id=3)
    raise KeyError(name)


def telescope_event(tel, pieces=PIECES, tag=0, ident=0):
    t = 2200 + tel % 100 + 1000 * (tel // 100)
    return group('telescope event', t, [piece(p, tel, tag) for p in pieces], ident, tel,
                 extra=tuple(pieces))


def tracking(tel, tag=0, raw=1, cor=1):
    key = 'tracking', tel, tag, raw, cor
    if key not in _cache:
        spec = specs.tracking_position(tel)
        w = codec.Writer(Values({'raw': raw, 'cor': cor}), 0)
        w.tag = 13 * (tag + 5 * tel)
        value = spec(w)
        obj = evio.Obj(2100 + tel % 100 + 1000 * (tel // 100), bytes(w.b), ident=w.ident_)
        _cache[key] = Block('tracking', obj, value, tel)
    return _cache[key]


def stereo(tag=0, bits=0x3ff):
    return block('C20', 'stereo reconstruction', tag, bits=bits)


def array_event(ident, trigger, telescopes=(), trackings=(), reconstruction=None):
    parts = [trigger, *telescopes, *trackings] + ([reconstruction] if reconstruction else [])
    return group('array event', 2010, parts, ident)


def calibration_event(array_event, kind=0):
    """kind: -1 unknown, 0 LED... as stored in the id"""
    return group('calibration event', 2028, [array_event], kind)


def calibration_pe(parts):
    return group('calibration photoelectrons', 2034, [telescope_data(parts)])


def histograms(tag=0):
    return block('C25', 'histograms', tag)


# ------------------------------------------------------------------ reference assembler, sim_telarray
STARTS = ('mc event', 'calibration event')


def _starts(blocks, start):
    """positions where an event begins"""
    out = []
    shower_seen = any(b.kind == 'mc shower' for b in blocks[:start])
    for i in range(start, len(blocks)):
        b = blocks[i]
        if b.kind == 'mc shower':
            shower_seen = True
        elif b.kind in STARTS or (b.kind == 'array event' and not shower_seen):
            out.append(i)
        elif b.kind == 'histograms':
            break
    return out


def _last(blocks, kind, before, after=-1):
    for i in range(before - 1, after, -1):
        if blocks[i].kind == kind:
            return i
    return None


def _telescope_event(b):
    e = {'pixel_lists': {}}
    for p in b.parts:
        k = p.kind
        if k == 'telescope event header':
            e['header'] = p.value
        elif k == 'pixel list':
            e['pixel_lists'][p.ident // 1000000] = p.value
        elif k.startswith('auxiliary'):
            e.setdefault('aux_traces', {})[p.ident] = p.value
        else:
            e[{'adc samples': 'adc_samples', 'adc sums': 'adc_sums', 'pixel timing': 'pixel_timing',
               'image parameters': 'image_parameters', 'pixel trigger times': 'pixel_trigger_times'}[k]] = p.value
    return e


class Keep:
    """telescopes whose data are kept"""

    def __init__(self, allowed):
        self.allowed = allowed

    def __call__(self, tel):
        return self.allowed is None or tel in self.allowed


def _array_event(b, keep):
    """(dict, optional keys)"""
    trigger = b.parts[0]
    with_data = trigger.extra[1]
    e = {'event_id': trigger.ident or b.ident, 'trigger_information': trigger.value,
         'telescope_events': {}, 'tracking_positions': {}}
    for p in b.parts[1:]:
        if p.kind == 'telescope event' and keep(p.tel):
            e['telescope_events'][p.tel] = _telescope_event(p)
        elif p.kind == 'tracking' and keep(p.tel):
            e['tracking_positions'][p.tel] = p.value
        elif p.kind == 'stereo reconstruction':
            e['stereo_reconstruction'] = p.value
    if keep.allowed is not None and not any(keep(t) for t in with_data):
        # need not carry tracking and reconstruction data
        e['tracking_positions'] = AnyOf({}, e['tracking_positions'])
        if 'stereo_reconstruction' in e:
            e['stereo_reconstruction'] = Optional(e['stereo_reconstruction'])
    return e


class Optional:
    """key may be missing"""

    def __init__(self, value):
        self.value = value


def resolve(event, got):
    """expected event for a delivered one: decides optional keys"""
    if any(isinstance(v, Optional) for v in event.values()):
        event = {k: v.value if isinstance(v, Optional) else v for k, v in event.items()
                 if not isinstance(v, Optional) or k in got}
    return event


def _monitoring(blocks, kind, tel, before):
    """parts that were stored last before a position, newer blocks replace the parts they hold"""
    e = {}
    for b in blocks[:before]:
        if b.kind == kind and b.tel == tel:
            e.update(b.value)
    return e


def simtel_events(blocks, header_end, allowed=None, skip_non_triggered=True, skip_calibration=False):
    """events of the file; blocks[:header_end] is the header part"""
    keep = Keep(set(allowed) if allowed else None)
    starts = _starts(blocks, header_end)
    end_of_file = len(blocks)
    for i, b in enumerate(blocks):
        if b.kind == 'histograms':
            end_of_file = i
            break
    out = []
    for i, j in zip(starts, starts[1:] + [end_of_file]):
        first = blocks[i]
        e = {}
        if first.kind == 'mc event':
            e['type'] = 'data'
            s = _last(blocks, 'mc shower', i)
            e['event_id'] = first.ident
            e['mc_shower'] = blocks[s].value if s is not None else None
            e['mc_event'] = first.value
            p = _last(blocks, 'particles', i, -1 if s is None else s)
            if p is not None:
                e['observation_level_particles'] = blocks[p].value
        else:
            e['type'] = 'calibration'
        at = None
        for k in range(i, j):
            b = blocks[k]
            if b.kind == 'array event':
                at = k
                e.update(_array_event(b, keep))
            elif b.kind == 'calibration event':
                at = k
                e.update(_array_event(b.parts[0], keep))
                e['event_id'] = -e['event_id']
                e['calibration_type'] = b.ident
                c = _last(blocks, 'calibration photoelectrons', i, starts[starts.index(i) - 1] if starts.index(i) else -1)
                if c is not None:
                    e['photoelectrons'] = {q.tel: q.value for q in blocks[c].parts[0].parts if q.kind == 'photo-electrons'}
            elif b.kind == 'mc photoelectron sum':
                e['photoelectron_sums'] = b.value
            elif b.kind == 'telescope data':
                for q in b.parts:
                    if q.kind == 'photo-electrons':
                        e.setdefault('photoelectrons', {})[q.tel] = q.value
                    elif q.kind == 'photon bunches':
                        e.setdefault('photons', {})[q.tel] = q.value[0]
                        if q.value[1] is not None:
                            e.setdefault('emitter', {})[q.tel] = q.value[1]
        if at is not None:
            for key, kind in (('camera_monitorings', 'camera monitoring'), ('laser_calibrations', 'laser calibration'),
                              ('pixel_monitorings', 'pixel monitoring')):
                e[key] = {t: _monitoring(blocks, kind, t, at) for t in e['telescope_events']}
        if keep.allowed is not None:
            # photons and photo-electrons belong to the simulation, they may be filtered or not
            for key in ('photoelectrons', 'photons', 'emitter'):
                if key in e:
                    full = e[key]
                    e[key] = AnyOf(full, {t: v for t, v in full.items() if keep(t)})
        if e['type'] == 'data' and skip_non_triggered and not e.get('telescope_events'):
            continue
        if e['type'] == 'calibration' and skip_calibration:
            continue
        out.append(e)
    return out



def header_part(n_tel=2, tels=None, tag=0, meta=True, mc=True):
    """blocks of the header of a sim_telarray file"""
    tels = tels or [1, 2, 105][:n_tel]
    out = [history(tag)]
    if meta:
        out += [metadata(-1, tag)] + [metadata(t, tag + t) for t in tels]
    out.append(run_header(len(tels), tag))
    if mc:
        out += [mc_run_header(tag), input_card(tag), profile(tag)]
    for t in tels:
        out += descriptions(t, tag)
    return out


def header_results(blocks, header_end):
    """what is available after opening"""
    b = blocks[:header_end]
    r = {'history': [p.value for x in b if x.kind == 'history' for p in x.parts],
         'mc_run_headers': [x.value for x in b if x.kind == 'mc run header'],
         'corsika_inputcards': [x.value for x in b if x.kind == 'input card'],
         'atmospheric_profiles': [x.value for x in b if x.kind == 'atmospheric profile'],
         'global_meta': {}, 'telescope_meta': {}, 'telescope_descriptions': {}}
    for x in b:
        if x.kind == 'run header':
            r['header'] = x.value
            r['n_telescopes'] = x.value['n_telescopes']
        elif x.kind == 'history metadata':
            if x.ident == -1:
                r['global_meta'] = x.value
            else:
                r['telescope_meta'][x.ident] = x.value
        elif x.kind in DESCRIPTIONS:
            r['telescope_descriptions'].setdefault(x.tel, {})[DESCRIPTIONS[x.kind]] = x.value
    return r


# ------------------------------------------------------------------ blocks of a CORSIKA file
def iact_header(n_tel=2, with_profile=True, tag=0):
    out = [block('C16', 'run header', tag), input_card(tag)]
    if with_profile:
        out.append(profile(tag))
    out.append(block('C16', 'telescope definition', tag, n=n_tel))
    return out


def event_header(tag=0):
    return block('C16', 'event header', tag)


def event_end(tag=0):
    return block('C16', 'event end', tag)


def run_end(tag=0):
    return block('C16', 'run end', tag)


def offsets(n, tag=0, version=1):
    return block('C16', 'array offsets', tag, n=n, version=version)


def longitudinal(tag=0):
    return block('C16', 'longitudinal', tag)


def array_head(ident=0):
    return _empty('array head', 1213, ident)


def array_end(ident=0):
    return _empty('array end', 1214, ident)


def _empty(kind, type_, ident):
    key = kind, ident
    if key not in _cache:
        _cache[key] = Block(kind, evio.Obj(type_, bytes(4), ident=ident))
    return _cache[key]


def iact_events(blocks, start):
    """events of a well-formed CORSIKA file; blocks[:start] is its header"""
    out = []
    i = start
    while blocks[i].kind != 'run end':
        j = next(k for k in range(i, len(blocks)) if blocks[k].kind == 'event end')
        part = blocks[i:j + 1]
        header, offs, end = part[0], part[1], part[-1]
        middle = part[2:-1]
        longi = [b.value for b in middle if b.kind == 'longitudinal']
        parts = [b.value for b in middle if b.kind == 'particles']
        reuses = []
        if any(b.kind == 'array head' for b in middle):
            for b in middle:
                if b.kind == 'array head':
                    reuses.append([])
                elif b.kind == 'photon bunches':
                    reuses[-1].append(b)
        else:
            reuses = [[p for p in b.parts if p.kind == 'photon bunches'] for b in middle if b.kind == 'telescope data']
        t, o = offs.value
        for k, bunches in enumerate(reuses):
            out.append({
                'header': header.value, 'end': end.value, 'event_number': header.value['event_number'],
                'reuse': k + 1, 'time_offset': t,
                'impact_x': -float(o['x'].a[k]), 'impact_y': -float(o['y'].a[k]),
                'reuse_weight': float(o['weight'].a[k]) if 'weight' in o else 1.0,
                'longitudinal': longi[-1] if longi else None,
                'particles': parts[-1] if parts else None,
                'photon_bunches': {b.tel: b.value[0] for b in bunches},
                'emitter': {b.tel: b.value[1] for b in bunches},
                'n_bunches': {b.tel: _counts(b)[1] for b in bunches},
                'n_photons': {b.tel: _counts(b)[0] for b in bunches},
            })
        i = j + 1
    return out


def _counts(b):
    import struct
    return struct.unpack_from('<fi', b.obj.payload, 4)


# ------------------------------------------------------------------ blocks of a real file
KINDS = {
    1200: ('C16', 'run header'), 1201: ('C16', 'telescope definition'), 1202: ('C16', 'event header'),
    1203: ('C16', 'array offsets'), 1208: ('C18', 'photo-electrons'), 1209: ('C16', 'event end'),
    1210: ('C16', 'run end'), 1211: ('C16', 'longitudinal'), 1212: ('C16', 'input card'),
    1216: ('C16', 'atmospheric profile'), 2000: ('C19', 'run header'), 2001: ('C19', 'mc run header'),
    2002: ('C19', 'camera settings'), 2003: ('C19', 'camera organization'), 2004: ('C19', 'pixel settings'),
    2005: ('C19', 'disabled pixels'), 2006: ('C19', 'software settings'), 2007: ('C19', 'pointing correction'),
    2008: ('C19', 'drive settings'), 2009: ('C20', 'trigger information'), 2011: ('C20', 'telescope event header'),
    2012: ('C21', 'adc sums'), 2013: ('C21', 'adc samples'), 2014: ('C20', 'image parameters'),
    2015: ('C20', 'stereo reconstruction'), 2016: ('C22', 'pixel timing'), 2020: ('C24', 'mc shower'),
    2021: ('C24', 'mc event'), 2022: ('C23', 'camera monitoring'), 2023: ('C23', 'laser calibration'),
    2026: ('C24', 'mc photoelectron sum'), 2027: ('C20', 'pixel list'), 2029: ('C20', 'auxiliary digital traces'),
    2030: ('C20', 'auxiliary analog traces'), 2032: ('C20', 'pixel trigger times'), 2033: ('C23', 'pixel monitoring'),
    71: ('C25', 'history command line'), 72: ('C25', 'history configuration'), 75: ('C25', 'history metadata'),
    100: ('C25', 'histograms'),
}
GROUPS = {70: 'history', 1204: 'telescope data', 1213: 'array head', 1214: 'array end', 2010: 'array event',
          2028: 'calibration event', 2034: 'calibration photoelectrons'}


def from_obj(o):
    """Block of a stored object, with the meaning the reference layouts give it"""
    tel = None
    if o.sub:
        if o.type in evio.TEL_EVENT:
            kind, tel = 'telescope event', evio.TEL_EVENT[o.type]
        else:
            kind = GROUPS.get(o.type, 'unknown')
        b = Block.__new__(Block)
        b.parts = [from_obj(c) for c in o.children]
        b.value = None
    else:
        b = Block.__new__(Block)
        b.parts = []
        spec = None
        if o.type in evio.TRACKING:
            tel = evio.TRACKING[o.type]
            kind, spec = 'tracking', specs.tracking_position(tel)
        elif o.type == 1205:
            kind = 'particles' if o.id == 999999 else 'photon bunches'
            spec = specs.C17[kind][1]
        elif o.type in KINDS:
            table, kind = KINDS[o.type]
            spec = getattr(specs, table)[kind][1]
        else:
            kind = GROUPS.get(o.type, 'unknown')
        b.value = ANY
        if spec is not None:
            try:
                b.value = codec.read(o, spec)
            except codec.Skip:
                pass
        if kind == 'photon bunches':
            tel = o.id % 1000
            if b.value is ANY:
                b.value = (ANY, None)
        elif kind == 'photo-electrons':
            tel = o.id % 1000
        elif kind in DESCRIPTIONS or kind in ('laser calibration', 'pixel monitoring', 'pixel trigger times',
                                              'pixel timing', 'telescope event header'):
            tel = o.id
        elif kind == 'camera monitoring':
            tel = o.id & 0xff | (o.id >> 24 & 0x3f) << 8
    b.kind, b.obj, b.tel, b.ident, b.extra, b.data = kind, o, tel, o.id, None, None
    if kind == 'trigger information' and b.value is not ANY:
        b.extra = ((), tuple(b.value['telescopes_with_data'].a.tolist()))
    return b


def from_file(data, limit=None):
    objs = codec.complete_objs(data)
    return [from_obj(o) for o in (objs if limit is None else objs[:limit])]
