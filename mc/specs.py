"""Reference layouts of all blocks, see codec.py.  {name: (type, spec)} per property."""
import numpy as np
from corsikaio import subblocks

from .codec import Raises
from .common import Arr, Near, Rec, AnyOf, freeze
from . import evio

COUNTS = (2, 0, 1, 3, 17)
BIG = (2, 0, 1, 3, 130)


# ================================================================ C16 CORSIKA blocks
def _subblock(k, n_floats, version_at, versions):
    n = k.num('length word', 'i4', n=(n_floats, n_floats - 1, n_floats + 1, 0, -1, 1 << 24 | n_floats))
    a = k.arr('floats', 'f4', n_floats).a.copy()
    if version_at is not None and not k.reading:
        a[version_at] = k.pick('corsika version', versions)
        k.b[-4 * n_floats:] = a.tobytes()
    return n, a


def run_header_1200(k):
    n, a = _subblock(k, 273, 3, [7.741, 6.9, 7.5, 7.64])
    if n != 273:
        return Raises(_wrong_size())
    r = {c: v for c, v in freeze(subblocks.parse_run_header(a.tobytes())[0]).items()}
    r['run_number'] = float(a[1])
    r['date'] = float(a[2])
    return r


def event_header_1202(k):
    n, a = _subblock(k, 273, 45, [7.741, 6.9, 7.5, 7.64])
    if n != 273:
        return Raises(_wrong_size())
    r = {c: v for c, v in freeze(subblocks.parse_event_header(a.tobytes())[0]).items()}
    r['event_number'] = float(a[1])
    r['particle_id'] = float(a[2])
    r['total_energy'] = float(a[3])
    return r


def event_end_1209(k):
    n, a = _subblock(k, 273, None, None)
    if n != 273:
        return Raises(_wrong_size())
    r = subblocks.parse_event_end(a.tobytes(), version=7.8)
    return Rec({c: np.array(r[c]) for c in r.dtype.names})


def run_end_1210(k):
    n = k.num('length word', 'i4', n=(3, 2, 4, 0, 273, -1))
    a = k.arr('floats', 'f4', 3).a
    if n != 3:
        return Raises(_wrong_size())
    r = subblocks.parse_run_end(a.tobytes() + bytes(270 * 4))
    return Rec({c: np.array(r[c]) for c in r.dtype.names})


def _wrong_size():
    from eventio.exceptions import WrongSize
    return WrongSize


def telescope_definition(k):
    n = k.num('n', 'i4', n=(2, 1, 3, 17, 300), free=True)
    a = [k.arr(c, 'f4', n) for c in 'xyzr']
    return Rec(dict(zip('xyzr', a)))


def array_offsets(k):
    v = k.version((0, 1))
    n = k.num('n', 'i4', n=(2, 1, 3, 0, 20), free=True)
    t = k.num('time offset', 'f4')
    cols = ['x', 'y'] + ['weight'] * (v == 1)
    a = [k.arr(c, 'f4', n) for c in cols]
    return [t, Rec(dict(zip(cols, a)))]


def longitudinal(k):
    r = {'event_id': k.num('event', 'i4'), 'type': k.num('type', 'i4')}
    r['np'] = k.num('np', 'i2', n=(2, 0, 1, 9), free=True)
    r['nthick'] = k.num('nthick', 'i2', n=(3, 0, 1, 40), free=True)
    r['thickstep'] = k.num('step', 'f4')
    r['data'] = k.arr('data', 'f4', r['np'], r['nthick'])
    return r


def input_card(k):
    n = k.num('lines', 'i4', n=(1, 0, 2, 3), free=True)
    out = b''
    for i in range(n):
        out += k.text('line') + b'\n'
    k.pad()
    return out


def atmospheric_profile(k):
    k.version((0, 1))
    ident = k.ident((99, 0, -1, 8))
    r = {'id': ident, 'name': k.vtext('name'), 'obslevel': k.num('obslevel', 'f8')}
    n = k.num('rows', 'vu', n=(2, 0, 1, 55, 130), free=True)
    t = k.arr('table', 'f8', n, 4).a
    for i, c in enumerate(['altitude_km', 'rho', 'thickness', 'refractive_index_minus_1']):
        r[c] = t[:, i]
    n5 = k.num('layers', 'vu', n=(5, 0), free=True)
    if n5 == 5:
        r['htoa'] = k.num('htoa', 'f8')
        r['five_layer_atmosphere'] = k.arr('layers', 'f8', 5, 5)
    else:
        r['htoa'] = None
        r['five_layer_atmosphere'] = None
    k.pad()
    return r


C16 = {
    'run header': (1200, run_header_1200),
    'event header': (1202, event_header_1202),
    'event end': (1209, event_end_1209),
    'run end': (1210, run_end_1210),
    'telescope definition': (1201, telescope_definition),
    'array offsets': (1203, array_offsets),
    'longitudinal': (1211, longitudinal),
    'input card': (1212, input_card),
    'atmospheric profile': (1216, atmospheric_profile),
}


# ================================================================ C17 photon bunches
PHOTON_COLS = ('x', 'y', 'cx', 'cy', 'time', 'zem', 'photons', 'wavelength')
EMITTER_COLS = ('x', 'y', 'mass', 'charge', 'time', 'emission_time', 'energy', 'wavelength')
PARTICLE_COLS = ('x', 'y', 'cx', 'cy', 'time', 'momentum', 'weight', 'particle_id')


def photon_columns(raw, compact):
    """columns of the stored (n, 8) array as they are documented"""
    if not compact:
        return [raw[:, i] for i in range(8)]
    d = raw.astype('f8')
    f = [d[:, 0] * 0.1, d[:, 1] * 0.1, np.clip(d[:, 2] / 30000, -1, 1), np.clip(d[:, 3] / 30000, -1, 1),
         d[:, 4] * 0.1, 10 ** (d[:, 5] * 0.001), d[:, 6] * 0.01, d[:, 7]]
    return [Near(c, dtype='f8', rtol=3e-5 if i == 5 else 2e-6) for i, c in enumerate(f)]


def _select(col, mask):
    if isinstance(col, Near):
        return Near(col.a[mask], dtype='f8', rtol=col.rtol)
    return col[mask]


def photon_result(raw, compact, particles=False):
    """raw: stored (n, 8) array"""
    cols = photon_columns(raw, compact)
    if particles:
        return Rec(dict(zip(PARTICLE_COLS, cols)))
    e = raw[:, 7] == 9999
    p = Rec((c, _select(v, ~e)) for c, v in zip(PHOTON_COLS, cols))
    if not len(raw):
        # there is nothing to scale
        p = Rec((c, Arr([], (0,))) for c in PHOTON_COLS)
    return [p, Rec((c, _select(v, e)) for c, v in zip(EMITTER_COLS, cols)) if e.any() else None]


def photons(particles):
    def spec(k):
        v = k.version((0, 1000, 1, 999, 1999, 2000, 1001, 3000, 2001, 4095))
        compact = v // 1000 == 1
        ident = 999999 if particles else k.ident((1003, 0, 1, 999, 1000, 998999, 999998, 999000, 5_000_007))
        k.ident_ = ident
        if k.reading and (k.o.id == 999999) != particles:
            k.skip()
        k.num('array', 'i2')
        k.num('telescope', 'i2')
        k.num('photons', 'f4')
        n = k.num('bunches', 'i4', n=(2, 1, 0, 3, 4, 65, 300), free=True)
        a = k.arr('values', 'i2' if compact else 'f4', n, 8).a
        if not k.reading and n and not particles:
            # all distributions of emitter records
            m = k.pick('emitters', 1 << n if n <= 4 else ['none', 'all', 'odd', 'first', 'last'])
            m = {'none': 0, 'all': -1, 'odd': 0x55555555, 'first': 1, 'last': 1 << n - 1}.get(m, m)
            a = a.copy()
            for i in range(n):
                if m >> i & 1:
                    a[i, 7] = 9999
                elif a[i, 7] == 9999:
                    a[i, 7] = 9998
            near = k.pick('last wavelength', [0, 9998, 10000, -9999, 1] if compact else
                          [0, np.nextafter(np.float32(9999), np.float32(0)), np.nextafter(np.float32(9999), np.float32(99999)), 9998.95, 9999.5, 1e5,
                           -9999])
            if near:
                a[-1, 7] = near
            k.b[-a.nbytes:] = a.tobytes()
        return photon_result(a, compact, particles)
    return spec


C17 = {
    'photon bunches': (1205, photons(False)),
    'particles': (1205, photons(True)),
}


# ================================================================ C18 photo-electrons
def compositions(total, parts):
    """all distributions of total things over parts places"""
    if parts == 1:
        return [(total,)]
    return [(i,) + c for i in range(total + 1) for c in compositions(total - i, parts - 1)]


def photoelectrons(k):
    v = k.version((1, 2, 3))
    k.ident((1003, 0, 1, 999))
    if k.reading:
        n_pe, n = k.get('i4'), k.get('i4')
        flags = k.get('i2') if v > 1 else 0
        m = k.get('i4')
        filled = None
    else:
        n = k.pick('pixels', (3, 1, 4, 0, 200, 32768) + (70000,) * (v > 2), free=True)
        flags = k.pick('flags', (0, 1, 4, 5), free=True) if v > 1 else 0
        if 0 < n < 5:
            o = [c for t in (3, 0, 1, 2, 4) for c in compositions(t, n)]
            if k.large:
                o = [o[0]] + [c[:n] for c in ((40000, 30000, 2, 1), (70000, 3, 1, 1), (1, 65536, 2, 2), (255, 256, 257, 65535))]
            counts = k.pick('distribution', o, free=not k.large)
            filled = [(i, c) for i, c in enumerate(counts) if c]
            # pixels may also be listed without photo-electrons, and in any order
            how = k.pick('listing', ['filled', 'all', 'reversed'])
            if how == 'all':
                filled = list(enumerate(counts))
            elif how == 'reversed':
                filled.reverse()
        elif n:
            filled = k.pick('distribution', [
                [(0, 2), (63, 1), (64, 1), (65, 3), (n - 1, 2)], [], [(n - 1, 5)], [(i, 1) for i in range(0, n, n // 100)],
                [(127, 1), (128, 2), (n // 2, 3)], [(5, 300)]], free=True)
        else:
            filled = []
        n_pe = sum(c for _, c in filled)
        m = len(filled)
        k.put('i4', n_pe)
        k.put('i4', n)
        if v > 1:
            k.put('i2', flags)
        k.put('i4', m)
    per_pixel = np.zeros(n, 'i4')
    pix, times, amp = [], [], []
    for i in range(m):
        f = 'vs' if v > 2 else 'i2'
        if k.reading:
            p, c = k.get(f), k.get('i4')
        else:
            p, c = filled[i]
            k.put(f, p)
            k.put('i4', c)
        per_pixel[p] = c
        pix += [p] * c
        alts = None if i < 3 or i == m - 1 else []
        times.append(k.arr('times', 'f4', c, alts=alts).a)
        if flags & 1:
            amp.append(k.arr('amplitudes', 'f4', c, alts=alts).a)
    cat = lambda x: np.concatenate(x) if x else np.zeros(0, 'f4')
    r = {'n_pe': n_pe, 'n_pixels': n, 'non_empty': m, 'photoelectrons': per_pixel, 'pixel_id': Arr(pix, (n_pe,)),
         'time': cat(times)}
    if flags & 1:
        r['amplitude'] = cat(amp)
    if flags & 4:
        ph = np.zeros(n, 'i4')
        if k.reading:
            m = k.get('i4')
            for i in range(m):
                p = k.get('i2')
                ph[p] = k.get('i4')
        else:
            o = [[], [n - 1], list(range(n))[:40]] if n else [[]]
            o += [[0, 2], [1]] if n > 2 else []
            listed = k.pick('photons', o, free=True)
            listed = [i for i in listed if i < 32768]
            k.put('i4', len(listed))
            for j, p in enumerate(listed):
                k.put('i2', p)
                ph[p] = k.num('photons', 'i4', alts=None if j < 2 else [])
        r['photons'] = ph
    k.pad()
    return r


C18 = {'photo-electrons': (1208, photoelectrons)}


# ================================================================ C19 configuration blocks
TEL = (7, 0, 1, 255, 256, 65535, 2147483647)


def run_header_2000(k):
    v = k.version((0, 1, 2))
    k.ident((31, 0, -1))
    r = {}
    for c in ('run', 'time', 'run_type', 'tracking_mode') + (('reverse_flag',) if v >= 2 else ()):
        r[c] = k.num(c, 'i4')
    r['direction'] = k.arr('direction', 'f4', 2)
    r['offset_fov'] = k.arr('offset_fov', 'f4', 2)
    r['conv_depth'] = k.num('conv_depth', 'f4')
    if v >= 1:
        r['conv_ref_pos'] = k.arr('conv_ref_pos', 'f4', 2)
    n = r['n_telescopes'] = k.num('n_telescopes', 'i4', n=BIG, free=True)
    r['tel_id'] = k.arr('tel_id', 'i2', n)
    r['tel_pos'] = k.arr('tel_pos', 'f4', n, 3)
    r['min_tel_trig'] = k.num('min_tel_trig', 'i4')
    r['duration'] = k.num('duration', 'i4')
    r['target'] = k.text('target')
    r['observer'] = k.text('observer')
    k.pad()
    return r


MC_RUN = [
    ('shower_prog_id', 'i4'), ('shower_prog_vers', 'i4'), ('shower_prog_start', 'i4'),
    ('detector_prog_id', 'i4'), ('detector_prog_vers', 'i4'), ('detector_prog_start', 'i4'),
    ('obsheight', 'f4'), ('n_showers', 'i4'), ('n_use', 'i4'), ('core_pos_mode', 'i4'),
    ('core_range', 2), ('alt_range', 2), ('az_range', 2), ('diffuse', 'i4'), ('viewcone', 2), ('E_range', 2),
    ('spectral_index', 'f4'), ('B_total', 'f4'), ('B_inclination', 'f4'), ('B_declination', 'f4'),
    ('injection_height', 'f4'), ('atmosphere', 'i4'), ('corsika_iact_options', 'i4'),
    ('corsika_low_E_model', 'i4'), ('corsika_high_E_model', 'i4'), ('corsika_bunchsize', 'f4'),
    ('corsika_wlen_min', 'f4'), ('corsika_wlen_max', 'f4'), ('corsika_low_E_detail', 'i4'),
    ('corsika_high_E_detail', 'i4'),
]


def mc_run_header(k):
    k.version((4,))
    return {c: k.num(c, f) if f != 2 else k.arr(c, 'f4', 2) for c, f in MC_RUN}


def camera_settings(k):
    v = k.version((0, 1, 2, 3, 4, 5, 6))
    r = {'telescope_id': k.ident(TEL)}
    n = r['n_pixels'] = k.num('n_pixels', 'i4', n=COUNTS, free=True)
    r['focal_length'] = k.num('focal_length', 'f4')
    if v >= 5:
        r['effective_focal_length'] = k.num('eff', 'f4')
    if v >= 6:
        for c in ('x', 'y', 'dx', 'dy'):
            r['effective_focal_length_' + c] = k.num('eff ' + c, 'f4')
    r['pixel_x'] = k.arr('x', 'f4', n)
    r['pixel_y'] = k.arr('y', 'f4', n)
    zeros = Arr(np.zeros(n, 'f4'))
    if v >= 4:
        flags = (0, 1, -1, 64)
        cs = r['curved_surface'] = k.num('curved', 'vs', n=flags, free=True)
        pp = r['pixels_parallel'] = k.num('parallel', 'vs', n=(1, 0, 70), free=True)
        r['pixel_z'] = k.arr('z', 'f4', n) if cs else zeros
        r['nxpix'] = k.arr('nx', 'f4', n) if not pp else zeros
        r['nypix'] = k.arr('ny', 'f4', n) if not pp else zeros
        c = r['common_pixel_shape'] = k.num('common', 'vs', n=(1, 0, 100), free=True)
        if not c:
            r['pixel_shape'] = k.arr('shapes', 'vs', n)
            r['pixel_area'] = k.arr('areas', 'f4', n)
            r['pixel_size'] = k.arr('sizes', 'f4', n)
        else:
            r['pixel_shape'] = Arr([k.num('shape', 'vs')] * n)
            r['pixel_area'] = Arr([k.num('area', 'f4')] * n, dtype='f4')
            r['pixel_size'] = Arr([k.num('size', 'f4')] * n, dtype='f4')
    else:
        r.update(curved_surface=0, pixels_parallel=1, common_pixel_shape=0, pixel_z=zeros, nxpix=zeros, nypix=zeros,
                 pixel_shape=Arr([-1] * n))
        r['pixel_area'] = k.arr('areas', 'f4', n)
        r['pixel_size'] = k.arr('sizes', 'f4', n) if v >= 1 else zeros
    r['n_mirrors'] = k.num('mirrors', 'i4') if v >= 2 else 0
    r['mirror_area'] = k.num('mirror area', 'f4') if v >= 2 else 0.0
    r['cam_rot'] = k.num('rot', 'f4') if v >= 3 else 0.0
    if v >= 4:
        k.pad()
    return r


def camera_organization(k):
    v = k.version((1, 2))
    r = {'telescope_id': k.ident(TEL)}
    n = r['n_pixels'] = k.num('n_pixels', 'i4', n=(2, 0, 1, 5, 70), free=True)
    r['n_drawers'] = k.num('n_drawers', 'i4')
    g = r['n_gains'] = k.num('n_gains', 'i4', n=(2, 1, 0), free=True)
    ns = r['n_sectors'] = k.num('n_sectors', 'i4', n=(1, 0, 3, 20), free=True)
    fmt = 'i2' if v == 1 else 'vs64'
    r['drawer'] = k.arr('drawer', fmt, n)
    for c in ('card', 'chip', 'channel'):
        r[c] = k.arr(c, fmt, n, g)
    sectors = []
    pattern = None if k.reading else k.pick('sectors', ['0 1', 'none', '3', 'many'])
    for i in range(n):
        length = None
        if not k.reading:
            length = {'0 1': (i + 1) % 2, 'none': 0, '3': 3, 'many': 70}[pattern]
            k.put('i2' if v == 1 else 'vs', length)
        else:
            length = k.get('i2' if v == 1 else 'vs')
        sectors.append(k.arr('sector', 'i2' if v == 1 else 'vs64', length, alts=None if i < 2 or i == n - 1 else []))
    r['sectors'] = sectors
    t, th, pt = [], [], []
    for i in range(ns):
        alts = None if i < 2 or i == ns - 1 else []
        t.append(k.num('type', 'u1', alts=alts))
        th.append(k.num('thr', 'f4', alts=alts))
        pt.append(k.num('pixel thr', 'f4', alts=alts))
    r['sector_type'] = Arr(t, (ns,), dtype='u1')
    r['sector_threshold'] = Arr(th, (ns,), dtype='f4')
    r['sector_pixel_threshold'] = Arr(pt, (ns,), dtype='f4')
    k.pad()
    return r


def pixel_settings(k):
    v = k.version((0, 1, 2, 3))
    r = {'telescope_id': k.ident(TEL)}
    for c in ('setup_id', 'trigger_mode', 'min_pixel_mult'):
        r[c] = k.num(c, 'i4')
    n = r['n_pixels'] = k.num('n_pixels', 'i4', n=COUNTS, free=True)
    r['pixel_HV_DAC'] = k.arr('dac', 'i4', n)
    d = r['n_drawers'] = k.num('n_drawers', 'i4', n=(2, 0, 1, 9), free=True)
    r['threshold_DAC'] = k.arr('thr', 'i4', d)
    # the number of drawers is stored twice in the declared layout
    r['n_drawers'] = k.num('n_drawers again', 'i4')
    r['ADC_start'] = k.arr('start', 'i2', d)
    r['ADC_count'] = k.arr('count', 'i2', d)
    if v >= 1:
        r['time_slice'] = k.num('time_slice', 'f4')
        r['sum_bins'] = k.num('sum_bins', 'i4')
    if v >= 2:
        a = k.num('shapes', 'vs', n=(1, 0, 2), free=True)
        b = k.num('length', 'vs', n=(3, 0, 1, 70), free=True)
        r['ref_step'] = k.num('ref_step', 'f4')
        r['ref_shape'] = k.arr('ref_shape', 'f2', a, b)
    r['sum_offset'] = k.num('sum_offset', 'i4') if v >= 3 else None
    k.pad()
    return r


def disabled_pixels(k):
    k.version((0,))
    r = {'telescope_id': k.ident(TEL)}
    n = r['n_trig_disabled'] = k.num('n trig', 'i4', n=BIG, free=True)
    r['trigger_disabled'] = k.arr('trig', 'i4', n)
    n = r['n_HV_disabled'] = k.num('n hv', 'i4', n=BIG, free=True)
    r['HV_disabled'] = k.arr('hv', 'i4', n)
    return r


def software_settings(k):
    k.version((0,))
    r = {'telescope_id': k.ident(TEL)}
    for c in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold', 'data_red_mode', 'zero_sup_mode'):
        r[c] = k.num(c, 'i4')
    n = r['zero_sup_n_thr'] = k.num('n thr', 'i4', n=(2, 0, 1, 10), free=True)
    r['zero_sup_thresholds'] = k.arr('thr', 'i4', n)
    for c in ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period', 'monitor_cur_period',
              'report_cur_period', 'monitor_HV_period', 'report_HV_period'):
        r[c] = k.num(c, 'i4')
    return r


def pointing_correction(k):
    k.version((0,))
    r = {'telescope_id': k.ident(TEL)}
    r['function_type'] = k.num('function', 'i4')
    n = r['n_param'] = k.num('n', 'i4', n=BIG, free=True)
    r['pointing_param'] = k.arr('param', 'f4', n)
    return r


def drive_settings(k):
    k.version((0,))
    k.ident(TEL)
    r = {}
    for c in ('drive_type_az', 'drive_type_alt'):
        r[c] = k.num(c, 'i2')
    for c in ('zeropoint', 'sign', 'resolution', 'range_low', 'range_high', 'park_pos'):
        for x in ('_az', '_alt'):
            r[c + x] = k.num(c + x, 'f4')
    return r


C19 = {
    'run header': (2000, run_header_2000),
    'mc run header': (2001, mc_run_header),
    'camera settings': (2002, camera_settings),
    'camera organization': (2003, camera_organization),
    'pixel settings': (2004, pixel_settings),
    'disabled pixels': (2005, disabled_pixels),
    'software settings': (2006, software_settings),
    'pointing correction': (2007, pointing_correction),
    'drive settings': (2008, drive_settings),
}


# ================================================================ C20 trigger and image blocks
def _tel14(k, free=False):
    """telescope id in bits 0-7 and 24-29 of the id"""
    return k.idbits('telescope', [(0, 8, 0), (8, 6, 24)], (5, 0, 255, 256, 1027, 16383), free)


def trigger_information(k):
    v = k.version((0, 1, 2, 3))
    k.ident((12, 0, -1, 2147483647))
    r = {'cpu_time': k.time('cpu'), 'gps_time': k.time('gps')}
    r['trigger_pattern'] = k.num('trg', 'i4')
    r['data_pattern'] = k.num('dat', 'i4')
    if v >= 1:
        n = r['n_triggered_telescopes'] = k.num('n trg', 'i2', n=(2, 0, 1, 3), free=True)
        tels = k.arr('tels', 'i2', n, alts=[0, 32767, -1])
        if not k.reading and n:
            # ids are distinct
            ids = list(dict.fromkeys(tels.a.tolist()))
            used = set(ids)
            ids += [i for i in range(1, n + 9) if i not in used][:n - len(ids)]
            tels = Arr(np.array(ids, 'i2'))
            k.b[-2 * n:] = tels.a.tobytes()
        r['triggered_telescopes'] = tels
        r['trigger_times'] = k.arr('times', 'f4', n)
        m = r['n_telescopes_with_data'] = k.num('n data', 'i2', n=(1, 0, 3), free=True)
        r['telescopes_with_data'] = k.arr('data', 'i2', m)
    if v >= 2:
        masks = []
        for i in range(n):
            masks.append(k.num('mask', 'vu', n=(1, 0, *range(2, 16), 0x10, 0x20, 0x40, 0x72, 0x7f, 0x100, 0x2a5, 0x80)))
        times = {}
        for t, mask in zip(r['triggered_telescopes'].a.tolist(), masks):
            bits = [b for b in range(4) if mask >> b & 1]
            if len(bits) > 1:
                times[t] = {b: k.num('time', 'f4') for b in bits}
        r['teltrg_time_by_type'] = times
        r['teltrg_type_mask'] = Arr([mask & ~0x70 | (mask & 0x70) << 4 for mask in masks], (n,), dtype='u8')
    if v >= 3:
        r['plane_wavefront_compensation'] = {c: k.num(c, 'f4') for c in ('az', 'alt', 'speed_of_light')}
    k.pad()
    return r


def telescope_event_header(k):
    v = k.version((0, 1, 2, 3, 4))
    r = {'telescope_id': k.ident(TEL)}
    r['loc_count'] = k.num('loc', 'i4')
    r['glob_count'] = k.num('glob', 'i4')
    r['cpu_time'] = k.time('cpu')
    r['gps_time'] = k.time('gps')
    flags = [s | f for f in (0, 0x100, 0x200, 0x300, 0x400, 0x500, 0x600, 0x700) for s in (2,)]
    t = k.num('source and flags', 'i2', n=flags + [0x7ff, 0x300, 0x3ff, 0x2ff], free=True)
    r['trg_source'] = t & 0xff
    if t & 0x100:
        if v <= 1:
            n = k.num('n sectors', 'i2', n=(2, 0, 1, 20))
            r['list_trgsect'] = k.arr('sectors', 'i2', n)
        else:
            n = k.num('n sectors', 'vs', n=(2, 0, 1, 20, 70))
            r['list_trgsect'] = k.arr('sectors', 'vs64', n)
        if v >= 1 and t & 0x400:
            r['time_trgsect'] = k.arr('sector times', 'f4', n)
    if t & 0x200:
        if v <= 1:
            n = r['n_phys_addr'] = k.num('n addr', 'i2', n=(2, 0, 1, 20))
            r['phys_addr'] = k.arr('addr', 'i2', n)
        else:
            n = r['n_phys_addr'] = k.num('n addr', 'vs', n=(2, 0, 1, 20, 70))
            r['phys_addr'] = k.arr('addr', 'vs64', n)
    if v >= 3:
        r['readout_time'] = k.num('readout', 'f4')
        r['relative_trigger_time'] = k.num('relative', 'f4')
    if v >= 4:
        r['start_readout'] = k.num('start', 'i4')
    k.pad()
    return r


def tracking_position(tel):
    def spec(k):
        k.version((0,))
        raw = k.idbits('raw', [(0, 1, 8)], (1, 0), free=True)
        cor = k.idbits('cor', [(0, 1, 9)], (1, 0), free=True)
        k.idbits('tel', [(0, 8, 0), (8, 6, 24)], (tel,))
        k.idbits('unused bits', [(0, 14, 10), (14, 2, 30)], (0, 1, 0x3fff, 0x8000, 0xffff))
        r = {'telescope_id': tel}
        if not raw and not cor:
            k.skip() if k.reading else None
            return r
        if raw:
            r['azimuth_raw'] = k.num('az', 'f4')
            r['altitude_raw'] = k.num('alt', 'f4')
        if cor:
            r['azimuth_cor'] = k.num('azc', 'f4')
            r['altitude_cor'] = k.num('altc', 'f4')
        return r
    return spec


def image_parameters(k):
    v = k.version((5, 6))
    tel = _tel14(k)
    cut = k.idbits('cut', [(0, 8, 12)], (3, 0, 255))
    flags = k.idbits('parts', [(0, 4, 8)], range(16), free=True)
    k.idbits('unused', [(0, 4, 20), (4, 2, 30)], (0, 15, 0x10, 0x20))
    r = {'flags': k.ident_, 'flags_hex': hex(k.ident_), 'telescope_id': tel, 'cut_id': cut}
    cnt = 'vs' if v >= 6 else 'i2'
    r['pixels'] = k.num('pixels', cnt, alts=[0, 1, 32767] + [70000] * (v >= 6))
    sat = r['n_sat'] = k.num('n_sat', cnt, n=(0, 1, 2, -1, 100), free=True)
    if sat > 0:
        r['clip_amp'] = k.num('clip', 'f4')
    for c in ('amplitude', 'x', 'y', 'phi', 'l', 'w'):
        r[c] = k.num(c, 'f4')
    r['n_conc'] = k.num('n_conc', 'i2')
    r['concentration'] = k.num('conc', 'f4')
    if flags & 1:
        for c in ('x_err', 'y_err', 'phi_err', 'l_err', 'w_err'):
            r[c] = k.num(c, 'f4')
    if flags & 2:
        for c in ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err'):
            r[c] = k.num(c, 'f4')
    if flags & 4:
        n = r['n_hot'] = k.num('n_hot', cnt, n=(2, 0, 1, 5, 70))
        r['hot_amp'] = k.arr('hot', 'f4', n)
        r['hot_pixel'] = k.arr('hot pixels', 'vs64' if v >= 6 else 'i2', n)
    if flags & 8:
        for c in ('tm_slope', 'tm_residual', 'tm_width1', 'tm_width2', 'tm_rise'):
            r[c] = k.num(c, 'f4')
    k.pad()
    return r


STEREO = [
    (0x01, ('Az', 'Alt')), (0x02, ('err_dir1', 'err_dir2', 'err_dir3')), (0x04, ('xc', 'yc')),
    (0x08, ('err_core1', 'err_core2', 'err_core3')), (0x10, ('mscl', 'mscw')), (0x20, ('err_mscl', 'err_mscw')),
    (0x40, ('energy',)), (0x80, ('err_energy',)), (0x100, ('xmax',)), (0x200, ('err_xmax',)),
]


def stereo_reconstruction(k):
    k.version((1,))
    bits = k.idbits('bits', [(0, 10, 0)], range(1024), free=True)
    k.idbits('unused', [(0, 22, 10)], (0, 1, 0x3fffff, 0x200000))
    r = {'result_bits': k.ident_}
    for c in ('n_trg', 'n_read', 'n_img'):
        r[c] = k.num(c, 'i2')
    r['img_pattern'] = k.num('pattern', 'i4')
    for b, cols in STEREO:
        if bits & b:
            for c in cols:
                r[c] = k.num(c, 'f4')
    k.pad()
    return r


def pixel_list(k):
    v = k.version((0, 1))
    i = k.ident((7, 0, 999999, 1000000, 1000007, 2000256, 1999999), free=True)
    r = {'code': i // 1000000, 'telescope_id': i % 1000000}
    n = r['pixels'] = k.num('n', 'vs' if v else 'i2', n=(2, 0, 1, 3, 64, 130, 300), free=True)
    r['pixel_list'] = k.arr('pixels', 'vs64' if v else 'i2', n)
    k.pad()
    return r


def pixel_trigger_times(k):
    k.version((0,))
    k.ident(TEL)
    r = {'time_step': k.num('step', 'f4')}
    n = r['n_times'] = k.num('n', 'vs', n=(2, 0, 1, 3, 64, 130), free=True)
    r['pixel_ids'] = k.arr('pixels', 'vs64', n)
    r['trigger_times'] = k.arr('times', 'vs64', n)
    k.pad()
    return r


def aux_traces(digital):
    def spec(k):
        k.ident((1, 0, 2, -1))
        r = {'tel_id': k.num('tel', 'i4'), 'time_scale': k.num('scale', 'f4')}
        n = k.num('traces', 'vu', n=(2, 0, 1, 5, 130), free=True)
        m = k.num('samples', 'vu', n=(3, 0, 1, 40, 130), free=True)
        r['trace_data'] = k.darr('data', n, m) if digital else k.arr('data', 'f4', n, m)
        k.pad()
        return r
    return spec


C20 = {
    'trigger information': (2009, trigger_information),
    'telescope event header': (2011, telescope_event_header),
    'tracking position 1': (2101, tracking_position(1)),
    'tracking position 99': (2199, tracking_position(99)),
    'tracking position 256': (2100 + 2000 + 56, tracking_position(256)),
    'tracking position 999': (2100 + 9000 + 99, tracking_position(999)),
    'image parameters': (2014, image_parameters),
    'stereo reconstruction': (2015, stereo_reconstruction),
    'pixel list': (2027, pixel_list),
    'pixel trigger times': (2032, pixel_trigger_times),
    'auxiliary digital traces': (2029, aux_traces(True)),
    'auxiliary analog traces': (2030, aux_traces(False)),
}


# ================================================================ C21 ADC data
def _subset(k, n):
    """a list of pixels, chosen by the explorer"""
    if n <= 4:
        m = k.pick('stored pixels', 1 << n, free=True)
        return [i for i in range(n) if m >> i & 1]
    o = [[0, n - 1], [], [n - 1], list(range(n)), list(range(0, n, 2)), list(range(n // 3, n // 2)), [1, 2, 3],
         [i for i in range(n) if i % 7 in (1, 2, 5)], list(range(min(16, n))), list(range(15, min(n, 33)))]
    return k.pick('stored pixels', o, free=True)


def _ranges(pixels):
    out = []
    for p in pixels:
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


def _adc_id(k, modes, known=(0,)):
    """telescope, zero_sup, data_red"""
    tel = k.idbits('telescope', [(0, 16, 12)], (5, 0, 1, 255, 256, 4097, 65535))
    z = k.idbits('zero suppression', [(0, 5, 0)], modes, free=True)
    d = k.idbits('data reduction', [(0, 5, 5)], (0, 1, 2, 16, 31))
    l = k.idbits('list known', [(0, 1, 10)], known)
    k.idbits('unused', [(0, 1, 11), (1, 4, 28)], (0, 1, 2, 16))
    return tel, z, d, l


def squeezed(a):
    """a last axis of length one may be dropped"""
    if a.shape[-1] == 1:
        return AnyOf(Arr(a[..., 0]), Arr(a))
    return Arr(a)


def adc_sums(k):
    k.version((3,))
    tel, z, red, known = _adc_id(k, (0, 1, 2, 3, 4, 31))
    n = k.num('n_pixels', 'i4', n=(3, 1, 0, 4, 15, 16, 17, 32, 40), free=True, top=8191 if z == 2 else 1 << 32)
    g = k.num('n_gains', 'i2', n=(2, 1), free=True)
    out = np.zeros((g, n), 'f8')
    if red or z > 2:
        if k.reading:
            k.skip()
        k.raw(bytes(200))
        return Raises(NotImplementedError)
    if z == 0:
        return _pad(k, squeezed(k.darr('sums', g, n).a))
    pixels = None if k.reading else _subset(k, n)
    if z == 1:
        for start in range(0, n, 16):
            if k.reading:
                bits = k.get('i2') & 0xffff
            else:
                bits = sum(1 << p - start for p in pixels if start <= p < start + 16)
                k.put('u2', bits)
            p = [start + i for i in range(16) if bits >> i & 1]
            if g == 2:
                out[1, p] = k.darr('low', 1, len(p)).a[0]
            out[0, p] = k.darr('high', 1, len(p)).a[0]
    else:
        m = k.num('listed', 'i2', n=(len(pixels),)) if not k.reading else k.get('i2')
        kinds = None if k.reading else k.pick('kinds', ['full', 'no low', 'reduced', 'mixed', 'mixed 2'], free=True)
        full, low, red = [], [], []
        for i in range(m):
            if k.reading:
                w = k.get('u2')
            else:
                # an 8 bit value has no low gain
                kind = {'mixed': i % 3, 'mixed 2': (2 - i) % 3, 'full': 0, 'no low': 1, 'reduced': 2}[kinds]
                w = pixels[i] | (0, 0x2000, 0x6000)[kind]
                k.put('u2', w)
            p = w & 0x1fff
            if w & 0x4000:
                red.append(p)
            else:
                full.append(p)
                if not w & 0x2000:
                    low.append(p)
        if g == 2:
            out[1, low] = k.darr('low', 1, len(low)).a[0]
        out[0, full] = k.darr('high', 1, len(full)).a[0]
        out[0, red] = k.arr('reduced', 'u1', len(red)).a
    return _pad(k, squeezed(out))


def _pad(k, r):
    k.pad()
    return r


def adc_samples(k):
    k.version((3,))
    tel, z, red, known = _adc_id(k, (0, 1, 2, 31), (0, 1))
    n = k.num('n_pixels', 'i4', n=(3, 1, 0, 4, 40, 130), free=True)
    g = k.num('n_gains', 'i2', n=(2, 1), free=True)
    s = k.num('n_samples', 'i2', n=(2, 1, 3, 25), free=True)
    if red or known:
        if k.reading:
            k.skip()
        k.raw(bytes(200))
        return Raises(NotImplementedError)
    if z == 0:
        d = k.darr('samples', g * n, s, 1 << 16).a.reshape(g, n, s)
        return _pad(k, squeezed(d))
    out = np.zeros((g, n, s), 'u4')
    pixels = []
    if k.reading:
        for _ in range(k.get('vs')):
            a = k.get('vs')
            b = -a - 1 if a < 0 else k.get('vs')
            a = b if a < 0 else a
            pixels += list(range(a, b + 1))
    else:
        pixels = _subset(k, n)
        r = _ranges(pixels)
        how = k.pick('ranges', ['single', 'pairs', 'split'])
        if how == 'split':
            r = [[p, p] for p in pixels]
        k.put('vs', len(r))
        for a, b in r:
            if a == b and how == 'single':
                k.put('vs', -a - 1)
            else:
                k.put('vs', a)
                k.put('vs', b)
    out[:, pixels] = k.darr('samples', g * len(pixels), s, 1 << 16).a.reshape(g, len(pixels), s)
    return _pad(k, squeezed(out))


C21 = {'adc sums': (2012, adc_sums), 'adc samples': (2013, adc_samples)}


# ================================================================ C22 pixel timing
def pixel_timing(k):
    v = k.version((1, 2))
    f = 'i2' if v == 1 else 'vs'
    k.ident(TEL)
    n = k.num('n_pixels', f, n=(3, 1, 4, 200), free=True)
    g = k.num('n_gains', 'i2', n=(2, 1, 0), free=True)
    before = k.num('before', 'i2', n=(0, -1), free=True)
    after = k.num('after', 'i2', n=(5, -1, 0))
    t = k.num('list type', 'i2', n=(1, 2), free=True)
    pixels = None if k.reading else _subset(k, n)
    if k.reading:
        m = k.get(f)
        lst = [k.get(f) for _ in range(m * t)]
    else:
        if t == 1:
            lst = list(pixels)
            if k.pick('order', ['ascending', 'descending']) == 'descending':
                lst.reverse()
        else:
            r = _ranges(pixels)
            how = k.pick('ranges', ['joined', 'split', 'with an empty one'])
            if how == 'split':
                r = [[p, p] for p in pixels]
            elif how == 'with an empty one' and r:
                r.insert(len(r) // 2, [1, 0])
            lst = [x for y in r for x in y]
        m = len(lst) // t
        k.put(f, m)
        for x in lst:
            k.put(f, x)
    pixels = lst if t == 1 else [p for a, b in zip(lst[::2], lst[1::2]) for p in range(a, b + 1)]
    threshold = k.num('threshold', 'i2', n=(0, -1), free=True)
    nt = k.num('types', 'i2', n=(2, 1, 0, 7), free=False)
    r = {'n_pixels': n, 'n_gains': g, 'before_peak': before, 'after_peak': after, 'list_type': t,
         'pixel_list': Arr(lst, (m,) if t == 1 else (m, 2), dtype='i8'), 'threshold': threshold, 'n_types': nt}
    with_sum = r['with_sum'] = before >= 0 and after >= 0
    only = r['glob_only_selected'] = threshold < 0
    r['time_type'] = k.arr('type', 'i2', nt)
    r['time_level'] = k.arr('level', 'f4', nt)
    gr = r['granularity'] = k.num('granularity', 'f4', n=(0.25, 0.01, 1.0, 0.0))
    if not k.reading:
        gr = r['granularity'] = float(np.float32(gr))
    r['peak_global'] = k.num('peak', 'f4')
    time = np.full((n, nt), np.nan, 'f4')
    loc = np.zeros((g, n), 'i8')
    glob = np.zeros((g, n), 'i8')
    for i, p in enumerate(pixels):
        alts = None if i == 0 or i == len(pixels) - 1 else []
        x = k.arr('times', 'i2', nt, alts=alts).a
        time[p] = np.float32(gr) * x.astype('f4')
        if with_sum:
            loc[:, p] = k.arr('local sums', 'vs', g, alts=alts).a
            if only:
                glob[:, p] = k.arr('global sums', 'vs', g, alts=alts).a
    if with_sum and m and not only:
        glob[:, :] = k.arr('global sums', 'vs', g, n).a
    r['time'] = time
    r['pulse_sum_loc'] = loc
    r['pulse_sum_glob'] = glob
    k.pad()
    return r


C22 = {'pixel timing': (2016, pixel_timing)}


# ================================================================ C23 monitoring and calibration
def camera_monitoring(k):
    v = k.version((0, 1))
    tel = _tel14(k)
    what = k.idbits('what', [(0, 7, 8)], (0x7f,) + tuple(1 << i for i in range(7)) + (0, 0x2a, 0x55, 0x0f, 0x78), free=True)
    k.idbits('reserved', [(0, 2, 30)], (0, 1, 2))
    r = {'telescope_id': tel, 'what': what, 'known': k.num('known', 'i2'), 'new_parts': k.num('new', 'i2'),
         'monitor_id': k.num('id', 'i4'), 'moni_time': k.time('time')}
    f = 'i2' if v == 0 else 'vs'
    ns = r['n_sectors'] = k.num('ns', f, n=(2, 0, 1, 70))
    n = r['n_pixels'] = k.num('np', f, n=(3, 0, 1, 70))
    nd = r['n_drawers'] = k.num('nd', f, n=(2, 0, 1, 70))
    ng = r['n_gains'] = k.num('ng', f, n=(2, 0, 1))
    if what & 1:
        r['status_time'] = k.time('status')
        r['status_bits'] = k.num('bits', 'i4')
    if what & 2:
        r['trig_time'] = k.time('trig')
        r['coinc_count'] = k.num('coinc', 'i4')
        r['event_count'] = k.num('events', 'i4')
        r['trigger_rate'] = k.num('rate', 'f4')
        r['sector_rate'] = k.arr('sector rate', 'f4', ns)
        r['event_rate'] = k.num('event rate', 'f4')
        r['data_rate'] = k.num('data rate', 'f4')
        r['mean_significant'] = k.num('mean', 'f4')
    if what & 4:
        r['ped_noise_time'] = k.time('ped')
        r['n_ped_slices'] = k.num('slices', 'i2')
        r['pedestal'] = k.arr('pedestal', 'f4', ng, n)
        r['noise'] = k.arr('noise', 'f4', ng, n)
    if what & 8:
        r['hv_temp_time'] = k.time('hv')
        nt = r['n_drawer_temp'] = k.num('n drawer temp', 'i2', n=(2, 0, 1))
        nc = r['n_camera_temp'] = k.num('n camera temp', 'i2', n=(1, 0, 3))
        r['hv_v_mon'] = k.arr('v', 'i2', n)
        r['hv_i_mon'] = k.arr('i', 'i2', n)
        r['hv_stat'] = k.arr('stat', 'u1', n)
        r['drawer_temp'] = k.arr('drawer temp', 'i2', nd, nt)
        r['camera_temp'] = k.arr('camera temp', 'i2', nc)
    if what & 16:
        r['dc_rate_time'] = k.time('dc')
        r['current'] = k.arr('current', 'u2', n)
        r['scaler'] = k.arr('scaler', 'u2', n)
    if what & 32:
        r['hv_thr_time'] = k.time('thr')
        r['hv_dac'] = k.arr('dac', 'u2', n)
        r['thresh_dac'] = k.arr('thr dac', 'u2', nd)
        r['hv_set'] = k.arr('hv set', 'u1', n)
        r['trig_set'] = k.arr('trig set', 'u1', n)
    if what & 64:
        r['set_daq_time'] = k.time('daq')
        for c in ('daq_conf', 'daq_scaler_win', 'daq_nd', 'daq_acc', 'daq_nl'):
            r[c] = k.num(c, 'i2')
    k.pad()
    return r


def laser_calibration(k):
    v = k.version((0, 1, 2, 3))
    r = {'telescope_id': k.ident(TEL)}
    n = k.num('n_pixels', 'u2', n=(3, 0, 1, 70, 40000), free=False)
    g = k.num('n_gains', 'i2', n=(2, 0, 1), free=True)
    r['lascal_id'] = k.num('id', 'i4')
    r['calib'] = k.arr('calib', 'f4', g, n)
    if v >= 1:
        t = k.arr('fractions', 'f4', g, 2).a
        r['max_int_frac'] = t[:, 0]
        r['max_pixtm_frac'] = t[:, 1]
    if v >= 2:
        r['tm_calib'] = k.arr('tm', 'f4', g, n)
    if v >= 3:
        r['flat_fielding'] = k.arr('ff', 'f4', g, n)
    return r


PIXMON = ('nsb_rate', 'qe_rel', 'gain_rel', 'hv_rel', 'current', 'fadc_amp_hg', 'fadc_amp_lg', 'disabled')


def pixel_monitoring(k):
    k.version((0,))
    k.ident(TEL)
    flags = k.num('flags', 'i4', n=list(range(256)) + [0x1ff, 0x100], free=True)
    n = k.num('n_pixels', 'i4', n=(3, 0, 1, 70))
    g = k.num('n_gains', 'i2', n=(2, 1), free=True)
    r = {'flags': flags, 'n_pixels': n, 'n_gains': g}
    for i, c in enumerate(PIXMON):
        if flags >> i & 1 and not (c == 'fadc_amp_lg' and g < 2):
            r[c] = k.arr(c, '?' if c == 'disabled' else 'f4', n)
    if flags & 0x100:
        # files of newer programs have one more column
        k.rest('more', b'\1\2\3\4' * n)
    k.pad()
    return r


C23 = {
    'camera monitoring': (2022, camera_monitoring),
    'laser calibration': (2023, laser_calibration),
    'pixel monitoring': (2033, pixel_monitoring),
}


# ================================================================ C24 simulated showers
def mc_shower(k):
    v = k.version((0, 1, 2))
    r = {'shower': k.ident((3, 0, -1, 2147483647))}
    r['primary_id'] = k.num('primary', 'i4')
    for c in ('energy', 'azimuth', 'altitude') + (('depth_start',) if v >= 1 else ()) + ('h_first_int', 'xmax'):
        r[c] = k.num(c, 'f4')
    for c in ('hmax', 'emax', 'cmax'):
        r[c] = k.num(c, 'f4') if v >= 1 else 0.0
    n = r['n_profiles'] = k.num('profiles', 'i2', n=(2, 0, 1, 3), free=True)
    r['profiles'] = []
    for i in range(n):
        p = {'id': k.num('id', 'i4')}
        p['n_steps'] = k.num('steps', 'i4', n=(2, 0, 1, 50))
        p['start'] = k.num('start', 'f4')
        p['end'] = k.num('end', 'f4')
        p['content'] = k.arr('content', 'f4', p['n_steps'])
        r['profiles'].append(p)
    if v >= 2:
        if k.reading:
            k.skip()
        # a nested object
        start = len(k.b)
        e = mc_extra(k)
        body = bytes(k.b[start:])
        body += bytes(-len(body) % 4)
        k.b[start:] = evio.head(1215, 1, ident=0, size=len(body), top=False, ext=False) + body
        r['mc_extra_params'] = e
    return r


def mc_extra(k):
    e = {'weight': k.num('weight', 'f4')}
    a = e['n_iparam'] = k.num('n int', 'vu', n=(2, 0, 1, 130), free=True)
    b = e['n_fparam'] = k.num('n float', 'vu', n=(1, 0, 3, 130), free=True)
    if a:
        e['iparam'] = k.arr('int', 'i4', a)
    if b:
        e['fparam'] = k.arr('float', 'f4', b)
    return e


def mc_extra_params(k):
    e = mc_extra(k)
    k.pad()
    return e


def mc_event(k):
    v = k.version((0, 1, 2))
    r = {'event_id': k.ident((100, 0, -1, 2147483647))}
    r['shower_num'] = k.num('shower', 'i4')
    r['xcore'] = k.num('x', 'f4')
    r['ycore'] = k.num('y', 'f4')
    r['aweight'] = k.num('w', 'f4') if v >= 2 else 1.0
    return r


def mc_pe_sum(k):
    v = k.version((0, 1, 2))
    r = {'event': k.ident((100, 0, -1, 2147483647)), 'shower_num': k.num('shower', 'i4')}
    n = r['n_tel'] = k.num('n', 'i4', n=BIG, free=True)
    r['n_pe'] = k.arr('pe', 'i4', n)
    bad = False
    if k.reading:
        if k.arr('pixels', 'i4', n).a.any():
            k.skip()
    else:
        j = k.pick('telescope with pixel data', n + 1 if n < 4 else 1)
        bad = j > 0
        for i in range(n):
            k.put('i4', 1 if i == j - 1 else 0)
    for c in (('photons', 'photons_atm', 'photons_atm_3_6', 'photons_atm_qe') if v >= 1 else ()) + \
            (('photons_atm_400',) if v >= 2 else ()):
        r[c] = k.arr(c, 'f4', n)
    return Raises(NotImplementedError) if bad else r


C24 = {
    'mc shower': (2020, mc_shower),
    'mc extra params': (1215, mc_extra_params),
    'mc event': (2021, mc_event),
    'mc photoelectron sum': (2026, mc_pe_sum),
}


# ================================================================ C25 history, metadata, histograms
def history_entry(k):
    k.version((0, 1))
    t = k.num('time', 'i4')
    s = k.text('text', None)
    k.pad()
    return [t, s]


def history_meta(k):
    k.ident((-1, 1, 0, 255))
    n = k.num('items', 'vu', n=(2, 0, 1, 3, 130), free=True)
    r = {}
    for i in range(n):
        if k.reading:
            key = k.vtext('key')
        elif i < 3:
            key = k.vtext('key', [b'key%d' % i, b'', b'key0', b'z' * 128 + b'%d' % i, b'\xff\x00='])
        else:
            key = b'key number %d' % i
            k.b += evio.vu(len(key)) + key
        if k.reading or i < 3:
            val = k.vtext('value')
        else:
            val = b'%d' % i
            k.b += evio.vu(len(val)) + val
        r[key] = val
    k.pad()
    return r


def histograms(k):
    k.version((1, 2))
    n = k.num('histograms', 'i2', n=(1, 0, 2), free=True, top=300)
    out = []
    for i in range(n):
        h = {}
        t = k.num('kind', 'u1', n=b'FDRrIi', free=i == 0)
        h['type'] = chr(t)
        title = k.text('title', [b'title%d' % i, b'', b'odd', b'\xc3\xa4\xe2\x82\xac', 'ä'.encode(), b'long ' * 60])
        h['title'] = title.decode('utf-8')
        if len(title) % 2 == 0:
            k.raw(b'\0')
        h['id'] = k.num('id', 'i4')
        nx = h['n_bins_x'] = k.num('nx', 'i2', n=(2, 0, 5), free=i == 0)
        ny = h['n_bins_y'] = k.num('ny', 'i2', n=(0, 1, 3), free=i == 0)
        h['entries'] = k.num('entries', 'i4')
        filled = h['tentries'] = k.num('tentries', 'i4', n=(7, 0, 1, 2147483647), free=i == 0)
        f = 'f4' if chr(t) in 'RrFD' else 'i4'
        for ax in 'xy' if ny > 0 else 'x':
            h['underflow_' + ax] = k.num('u', 'i4')
            h['overflow_' + ax] = k.num('o', 'i4')
            for c in ('lower_', 'upper_', 'sum_', 'tsum_'):
                h[c + ax] = k.num(c + ax, f)
        count = nx * ny if ny > 0 else nx
        if chr(t) in 'FD':
            h['content_all'] = k.num('all', 'f4')
            h['content_inside'] = k.num('inside', 'f4')
            h['content_outside'] = k.arr('outside', 'f4', 8)
        if filled > 0:
            d = k.arr('data', 'f4' if chr(t) in 'FD' else 'i4', count).a
        else:
            d = np.zeros(count, 'i4')
        h['data'] = d.reshape(ny, nx) if ny > 0 else d
        out.append(h)
    k.pad()
    return out


C25 = {
    'history command line': (71, history_entry),
    'history configuration': (72, history_entry),
    'history metadata': (75, history_meta),
    'histograms': (100, histograms),
}
