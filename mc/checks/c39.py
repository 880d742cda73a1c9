"""C39: read errors surface and never change the data."""
import errno
import hashlib
import os

from .. import evio, events as E, faults, layouts as L, script
from ..common import canon, caught, fail
from ..engine import Part
from . import c26, c37

TECHNIQUE = ('exhaustive fault injection: for every operation sequence every read call of the real code on the file is made to fail (EIO) or to '
             'come up short, one and two of them; every result is compared with the run without faults')
ASSUMPTIONS = ['faults are injected at the read calls of the process that runs the reader; what an external decompressor meets is its own business',
               'a call may also succeed in spite of an error (by reading again) if it gives the right data',
               'after an error only uncompressed files can be used on; a generator of events ends with an error and is started again']

TOOLS = {'print_structure': [[], ['-r']], 'print_object_information': [[], ['--json']], 'print_simtel_history': [[]],
         'print_simtel_metaparams': [[], ['--json']], 'cut_eventio_file': [['cut.out', '20k'], ['cut.out.gz', '1k']]}
KINDS = ('objects 0', 'objects 1', 'objects 2', 'objects 3', 'iact', 'simtel')


def noise(n, k=0):
    out = b''
    while len(out) < n:
        out += hashlib.blake2b(b'%d %d' % (k, len(out))).digest()
    return out[:n]


_data = {}


def content(kind):
    if kind not in _data:
        if kind == 'iact' or kind == 'simtel':
            blocks, n = c37.event_file(kind)
            if kind == 'simtel':
                # blocks over several pages, also where the reader looks at nothing
                blocks = list(blocks)
                history = evio.Obj(70, [L.history_line(), evio.Obj(72, b'\1\0\0\0' + (9000).to_bytes(2, 'little') + noise(9000), version=1, ident=3)], version=1)
                _data[kind] = evio.build([history]) + E.content(blocks)
            else:
                _data[kind] = E.content(blocks)
        else:
            k = int(kind[-1])
            big = [evio.Obj(60000, noise(n, n), ident=n) for n in (4096, 5000, 9001)]
            objs = list(c37.file_objects(k))
            if k % 2:
                objs = [big[1]] + objs + [L.box(big[2], L.box(L.mc_event(), big[0]), L.input_card())]
            else:
                objs = objs[:2] + [L.box(L.generic(1), big[0], L.box(big[1], L.generic(2)))] + objs[2:] + [big[2]]
            _data[kind] = evio.build(objs)
    return _data[kind]


# ------------------------------------------------------------------ what is done with a file
END = ('end',)


def parse(o):
    try:
        return canon(o.parse())
    except (NotImplementedError, ValueError) as e:
        return type(e).__name__


def walk(f, pattern, level=0):
    """yields the calls to make, gets their results"""
    while True:
        if level == 0 and 'peek' in pattern:
            yield 'peek', f.peek
        o = yield 'next', lambda: next(f)
        if o is END:
            return
        h = o.header
        yield 'header', lambda: (type(o).__name__, h.type, h.version, h.id, h.only_subobjects, o.address, o.size)
        if h.only_subobjects:
            yield from walk(o, pattern, level + 1)
        else:
            if 'read' in pattern:
                yield 'read', o.read
            if 'pieces' in pattern:
                while o.tell() < o.size:
                    yield 'read part', lambda: o.read(700)
            if 'parse' in pattern:
                yield 'parse', lambda: parse(o)


def objects(f, pattern, on_fault=None):
    """results of all calls; after an OSError: asks on_fault whether to go on"""
    g = walk(f, pattern)
    out = []
    answer = None
    pending = False
    while True:
        try:
            what, call = g.send(answer)
        except StopIteration:
            return out
        while True:
            before = faults.failed()
            try:
                answer = call()
            except StopIteration:
                answer = END
            except EOFError:
                raise
            except OSError as e:
                if not (faults.failed() > before or pending):
                    fail('{} {} raises {!r} without an error below', what, len(out), e)
                pending = False
                if not on_fault(out, e):
                    return out
                continue
            if what == 'peek' and answer is None and faults.failed() > before:
                pending = True
            break
        if what == 'next':
            pending = False
        if what in ('peek', 'next'):
            h = getattr(answer, 'header', None)
            out.append((what, None if h is None else (h.type, h.version, h.id, h.content_address, h.content_size)) if not pending else None)
        else:
            out.append((what, answer))


def same_rows(got, ref, what, whole):
    if whole and len(got) != len(ref):
        fail('{}: {} results instead of {}', what, len(got), len(ref))
    for i, (a, b) in enumerate(zip(got, ref)):
        if a is not None and a != b:
            fail('{}: call {} ({}) gives {:.300} instead of {:.300}', what, i, b[0], repr(a[1]), repr(b[1]))
    if len(got) > len(ref):
        fail('{}: {} results instead of {}', what, len(got), len(ref))


def fds():
    return sorted(os.listdir('/proc/self/fd'))


_ref = {}
ERROR = object()


def use(job, path, kw, ref):
    """(results so far, error)"""
    from eventio import EventIOFile, SimTelFile, IACTFile, search_utils
    import eventio.simtel as S
    import eventio.iact as I
    mode = job[0]
    if mode == 'tool':
        _, tool, args = job
        for n in ('cut.out', 'cut.out.gz'):
            if os.path.exists(n):
                os.remove(n)
        r = script.run(tool, path, *args)
        out = [r.out, r.warned, type(r.error).__name__]
        if tool == 'cut_eventio_file':
            for n in ('cut.out', 'cut.out.gz'):
                if os.path.exists(n):
                    with open(n, 'rb') as f:
                        b = f.read()
                    out.append(len(b) if n.endswith('.gz') else b)
        return ([], r.error) if isinstance(r.error, OSError) else ([out], None)
    if mode == 'helper':
        name = job[1]
        with caught() as w:
            try:
                with EventIOFile(path, **kw) as f:
                    if name == 'find_type':
                        r = [search_utils.find_type(f, I.Photons if b'objects' in path.encode() else S.MCEvent)]
                    elif name == 'find_all_subobjects':
                        r = search_utils.find_all_subobjects(f, [S.ArrayEvent, S.TelescopeEvent, S.ADCSums])
                    elif name == 'yield_all_subobjects':
                        r = list(search_utils.yield_all_subobjects(f, [S.ArrayEvent, S.TelescopeEvent, S.ADCSums]))
                    elif name == 'yield_all_objects_depth_first':
                        r = [o for o, _ in search_utils.yield_all_objects_depth_first(f)]
                    elif name == 'yield_n_subobjects':
                        r = list(search_utils.yield_n_subobjects(f, S.TelescopeEvent, 3))
                    else:
                        r = list(getattr(search_utils, name)(f, S.MCEvent))
                    return [[(o.header.type, o.header.id, o.address) for o in r]], None
            except EOFError:
                raise
            except OSError as e:
                return [], e
            finally:
                if any('truncated' in str(x.message) for x in w):
                    fail('{} of {}: warns of a truncated file', name, path)
    out = []
    cls = IACTFile if mode == 'iact' else SimTelFile
    more = {} if mode == 'iact' else {'skip_non_triggered': False}
    with caught() as w:
        try:
            with cls(path, **more, **kw) as f:
                out.append(canon(f.header))
                it = iter(f)
                try:
                    for e in it:
                        out.append(canon(c26.as_dict(e) if mode == 'iact' else e))
                    if mode == 'simtel':
                        out.append(canon([f.histograms, f.history, dict(f.telescope_descriptions)]))
                    return out, None
                except EOFError:
                    raise
                except OSError as e:
                    if mode == 'iact' and kw.get('plain') is None and job[1] == 'plain' and ref is not None:
                        again = [out[0]] + [canon(c26.as_dict(x)) for x in f]
                        if again != ref:
                            fail('iterating again from the start after an error gives other events')
                    return out, e
        except EOFError:
            raise
        except OSError as e:
            return out, e
        finally:
            if ref is not None and any('truncated' in str(x.message) for x in w):
                fail('{}: warns of a truncated file', job)


def jobs(kind, variant):
    out = []
    if kind.startswith('objects') or kind == 'simtel':
        out += [('objects', p) for p in ('read', 'parse', 'peek read', 'pieces', 'skip', 'peek skip')]
    if kind in ('iact', 'simtel'):
        out.append((kind, variant))
        out.append(('objects', 'read parse' if evio.seekable(variant) else 'parse'))
    if kind == 'simtel':
        out += [('tool', t, a) for t in sorted(TOOLS) for a in TOOLS[t]]
        out += [('helper', h) for h in ('find_type', 'collect_toplevel_of_type', 'yield_toplevel_of_type', 'find_all_subobjects',
                                        'yield_all_subobjects', 'yield_all_objects_depth_first', 'yield_subobjects', 'yield_n_subobjects')]
    return out


def execute(job, path, kw, variant, ref, what):
    """results; job 'objects' goes on after an error in uncompressed files"""
    from eventio import EventIOFile
    if job[0] != 'objects':
        return use(job, path, kw, ref)
    with caught():
        try:
            f = EventIOFile(path, **kw)
        except EOFError:
            raise
        except OSError as e:
            return [], e
        seen = []

        def on_fault(out, e):
            same_rows(out, ref, what, False)
            seen.append(e)
            return variant == 'plain'
        with f:
            rows = objects(f, job[1], on_fault)
        return rows, seen[-1] if seen and variant != 'plain' else None


def reference(kind, variant, job):
    key = kind, variant, repr(job)
    if key not in _ref:
        path = '{}.{}'.format(kind.replace(' ', ''), variant)
        kw = evio.store(path, content(kind), variant)
        faults.watch(path)
        ref, error = execute(job, path, kw, variant, None, 'without faults')
        n, opens, _ = faults.off()
        if error:
            fail('{} {} {} without faults: {!r}', kind, variant, job, error)
        _ref[key] = path, kw, ref, n, opens
    return _ref[key]


FAULTS = faults.EIO, faults.ONE, faults.HALF


def gen(variants, kinds, more, opens=True):
    """more: distances of the second, third... fault"""
    def g(c):
        kind = c.choose('file', kinds, free=True)
        variant = c.choose('stored', variants, free=True)
        job = c.choose('use', jobs(kind, variant), free=True)
        _, _, _, n, n_opens = reference(kind, variant, job)
        k = c.choose('first fault', n + (n_opens if opens else 0), free=True)
        if k >= n:
            return kind, variant, job, [(k - n, faults.OPEN)]
        plan = [(k, c.choose('fault', FAULTS, free=True))]
        for d in more:
            if not c.flag('another fault', free=True):
                break
            plan.append((plan[-1][0] + 1 + c.choose('after', d, free=True), c.choose('fault', FAULTS, free=True)))
        return kind, variant, job, plan
    return g


def run(cases, ctx):
    for kind, variant, job, plan in cases:
        path, kw, ref, n, _ = reference(kind, variant, job)
        what = '{} {}, {}, faults {}'.format(kind, variant, ' '.join(map(str, job)), [(k, faults.NAMES[a]) for k, a in plan])
        open_before = fds()
        faults.watch(path, plan)
        failed = 0
        try:
            got, error = execute(job, path, kw, variant, ref, what)
        except EOFError as e:
            fail('{}: {!r}', what, e)
        finally:
            reads, _, failed = faults.off()
        ctx.step(max(1, len(got)))
        ctx.state(kind, variant, repr(job), repr(plan))
        if error is not None and not failed:
            fail('{}: {!r} without an error below', what, error)
        if error is not None and error.errno not in (errno.EIO, errno.EMFILE, None):
            fail('{}: {!r} instead of the error below', what, error)
        if error is not None:
            error.__traceback__ = None
        if job[0] == 'objects':
            same_rows(got, ref, what, error is None)
        elif got != ref[:len(got)] or error is None and len(got) != len(ref):
            i = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
            fail('{}: result {} is {:.300} instead of {:.300}', what, i, repr(got[i:i + 1]), repr(ref[i:i + 1]))
        del error, got
        if fds() != open_before:
            fail('{}: descriptors stay open', what)
        ctx.outcome(kind, variant, job[0], failed, reads - n)


def parts(tier):
    q = tier == 'quick'
    faults.lib()
    plain = ['plain']
    return [
        Part('one fault', gen(plain, KINDS, ()), run, batch=32, note='every read and every opening of every use fails or comes up short'),
        Part('one fault, compressed', gen(['gzip', 'zst', 'gzip2', 'zst2', 'zcat'], KINDS, ()), run, batch=16),
        Part('two faults', gen(plain + ['gzip'] if q else ['plain', 'gzip', 'zst', 'zst2'], KINDS, (6,) if q else (40,), False), run, batch=32,
             note='a second fault at one of the next {} reads'.format(6 if q else 40)),
        Part('three faults', gen(plain, KINDS[2:5] if q else KINDS, (2, 2) if q else (8, 8), False), run, batch=32),
    ]
