"""Which versions and kinds of objects are parsed and which are refused."""
from .. import codec, evio, specs
from ..common import check_same, fail
from ..engine import Chooser, Part

ASSUMPTIONS = [
    'the table of supported versions below is the documented one of this revision; a revision that supports more versions '
    'has to extend it',
]

# type -> (layout, versions that are supported)
CHECKED = {
    1203: (specs.array_offsets, {0, 1}),
    1208: (specs.photoelectrons, {1, 2, 3}),
    1216: (specs.atmospheric_profile, {0, 1}),
    2000: (specs.run_header_2000, {0, 1, 2}),
    2001: (specs.mc_run_header, {4}),
    2002: (specs.camera_settings, set(range(7))),
    2003: (specs.camera_organization, {1, 2}),
    2004: (specs.pixel_settings, {0, 1, 2, 3}),
    2005: (specs.disabled_pixels, {0}),
    2006: (specs.software_settings, {0}),
    2007: (specs.pointing_correction, {0}),
    2008: (specs.drive_settings, {0}),
    2009: (specs.trigger_information, {0, 1, 2, 3}),
    2011: (specs.telescope_event_header, {0, 1, 2, 3, 4}),
    2012: (specs.adc_sums, {3}),
    2013: (specs.adc_samples, {3}),
    2014: (specs.image_parameters, {5, 6}),
    2015: (specs.stereo_reconstruction, {1}),
    2016: (specs.pixel_timing, {1, 2}),
    2020: (specs.mc_shower, {0, 1, 2}),
    2022: (specs.camera_monitoring, {0, 1}),
    2023: (specs.laser_calibration, {0, 1, 2, 3}),
    2026: (specs.mc_pe_sum, {0, 1, 2}),
    2027: (specs.pixel_list, {0, 1}),
    2032: (specs.pixel_trigger_times, {0}),
    2033: (specs.pixel_monitoring, {0}),
    100: (specs.histograms, {1, 2}),
    2101: (specs.tracking_position(1), {0}),
    2199: (specs.tracking_position(99), {0}),
    11142: (specs.tracking_position(942), {0}),
}
NO_PARSER = [70, 1204, 1206, 1207, 1213, 1214, 2010, 2017, 2024, 2025, 2028, 2031, 2034, 2201, 2299, 3200, 2200 + 9099]
UNKNOWN = [0, 1, 69, 73, 76, 99, 101, 1199, 1217, 1999, 2018, 2035, 2050, 60000, 65535]
CONTAINERS = [70, 1204, 2010, 2028, 2034, 2201, 2299, 3200] + UNKNOWN


def valid(type_, version):
    """(Obj, expected result) of the default block of a version"""
    spec, versions = CHECKED[type_]
    order = None

    class Fixed(Chooser):
        def choose(self, name, options, free=False):
            if name == 'version':
                k = list(options).index(version)
                self.trace.append((name, len(options), free, k))
                return options[k]
            return super().choose(name, options, free)

    return codec.write(Fixed(), type_, spec)


def parse_file(objs):
    from eventio import EventIOFile
    with open('version.dat', 'wb') as f:
        f.write(evio.build([evio.Obj(60001, objs)]))
    return EventIOFile('version.dat')


# ---------------------------------------------------------------- versions
def gen_versions(c):
    return c.choose('type', sorted(CHECKED), free=True), c.choose('versions', 64, free=True)


def run_versions(cases, ctx):
    for type_, block in cases:
        spec, supported = CHECKED[type_]
        models = [valid(type_, v) for v in sorted(supported)]
        todo = []
        for version in range(block * 64, block * 64 + 64):
            if version in supported:
                m, e = models[sorted(supported).index(version)]
                todo.append((evio.Obj(type_, m.payload, version=version, ident=m.id), e))
            else:
                todo += [(evio.Obj(type_, m.payload, version=version, ident=m.id), None) for m, e in models]
                todo.append((evio.Obj(type_, b'', version=version, ident=models[0][0].id), None))
        with parse_file([m for m, e in todo]) as f:
            xs = list(next(f))
            if len(xs) != len(todo):
                fail('{} objects instead of {}', len(xs), len(todo))
            for x, (m, e) in zip(xs, todo):
                version = m.version
                what = 'type {} version {}'.format(type_, version)
                try:
                    r = x.parse()
                except NotImplementedError as err:
                    if version in supported:
                        fail('{} is refused: {!r}', what, err)
                except Exception as err:
                    fail('{}: {!r}', what, err)
                else:
                    if version not in supported:
                        fail('{} gives {!r:.300} instead of NotImplementedError', what, r)
                    check_same(r, e, what)
                ctx.step()
                ctx.state(type_, version)
                ctx.outcome(type_, version in supported)


# ---------------------------------------------------------------- kinds
def gen_kinds(c):
    kind = c.choose('kind', ['no parser', 'container'], free=True)
    t = c.choose('type', NO_PARSER + UNKNOWN if kind == 'no parser' else CONTAINERS, free=True)
    return kind, t, c.choose('version', (0, 1, 2, 3, 4095), free=True), c.choose('size', (0, 4, 200), free=True), \
        c.choose('nested', (False, True), free=True)


def run_kinds(cases, ctx):
    from eventio import EventIOFile
    for kind, t, version, size, nested in cases:
        if kind == 'no parser':
            o = evio.Obj(t, bytes(size), version=version, ident=1)
            error = NotImplementedError
        else:
            o = evio.Obj(t, [evio.Obj(60002, bytes(size))] * (size > 0), version=version, ident=1)
            error = ValueError
        with open('kind.dat', 'wb') as f:
            f.write(evio.build([evio.Obj(60001, [o]) if nested else o]))
        with EventIOFile('kind.dat') as f:
            x = next(f)
            if nested:
                x = next(x)
            for i in range(2):
                try:
                    r = x.parse()
                except error:
                    pass
                except Exception as e:
                    fail('{} of type {} version {}: {!r} instead of {}', kind, t, version, e, error.__name__)
                else:
                    fail('{} of type {} version {}: gives {!r:.300} instead of {}', kind, t, version, r, error.__name__)
                if kind == 'container':
                    list(x)
        ctx.step(2)
        ctx.state(kind, t, version, size, nested)
        ctx.outcome(kind, t)


# ---------------------------------------------------------------- reduction modes of ADC data
def gen_modes(c):
    return c.choose('type', (2012, 2013), free=True), c.choose('zero suppression', 32, free=True), \
        c.choose('data reduction', 32, free=True), c.choose('list known', 2, free=True)


def run_modes(cases, ctx):
    from eventio import EventIOFile
    for t, z, red, known in cases:
        if t == 2012 and known:
            continue
        if t == 2012:
            supported = red == 0 and z <= 2
        else:
            supported = red == 0 and not known
        if supported:
            continue
        ident = 5 << 12 | known << 10 | red << 5 | z
        head = b'\2\0\0\0\1\0' + (b'\1\0' if t == 2013 else b'')
        for body in (b'', bytes(60)):
            with open('mode.dat', 'wb') as f:
                f.write(evio.build([evio.Obj(60001, [evio.Obj(t, head + body, version=3, ident=ident)])]))
            with EventIOFile('mode.dat') as f:
                x = next(next(f))
                try:
                    r = x.parse()
                except NotImplementedError:
                    continue
                except Exception as e:
                    fail('type {} zero suppression {}, data reduction {}, list known {}: {!r}', t, z, red, known, e)
                fail('type {} zero suppression {}, data reduction {}, list known {}: gives {!r}', t, z, red, known, r)
        ctx.step()
        ctx.state(t, z, red, known)
        ctx.outcome(t, z, red)


def parts(tier):
    return [
        Part('versions', gen_versions, run_versions, batch=4, note='all 4096 versions of all version-checked types, with payloads of all supported versions'),
        Part('kinds', gen_kinds, run_kinds, batch=16, note='types without parser and containers'),
        Part('reduction modes', gen_modes, run_modes, batch=32, note='all data reduction and zero suppression modes'),
    ]
