"""C34: search helpers find exactly the matching objects."""
import os
import warnings

from .. import codec, evio, layouts as L, trees
from ..common import fail
from ..engine import Part

TECHNIQUE = 'bounded exhaustive enumeration of object trees, criteria and cut positions on the real helpers, against a reference search'
ASSUMPTIONS = ['objects inside of a matching object of the same kind may be delivered or not, and so may objects of the last type of a path '
               'that are found before the path ends',
               'the inner types of a path are types of containers',
               'a warning about truncation is required where plain iteration over the same file meets it']

LEAVES = ['mc event', 'photons', 'unknown', 'tracking', 'tracking far', 'pixel list']
BOXES = ['telescope data', 'array event', 'telescope event', 'unknown box']
CLASSES = ['MCEvent', 'Photons', 'EventIOObject', 'TrackingPosition', 'PixelList', 'TelescopeData', 'ArrayEvent', 'TelescopeEvent', 'InputCard']
PATHS = [('ArrayEvent', 'TelescopeEvent', 'PixelList'), ('ArrayEvent', 'TrackingPosition'), ('TelescopeData', 'Photons'), ('MCEvent',),
         ('ArrayEvent', 'TelescopeEvent'), ('TelescopeData', 'TelescopeData'), ('ArrayEvent', 'ArrayEvent', 'Photons'),
         ('TelescopeEvent', 'ArrayEvent', 'TelescopeData', 'MCEvent'), ('TelescopeData',), ('EventIOObject',)]


def cls(name):
    from eventio import base, iact, simtel
    for m in (base, iact, simtel):
        if hasattr(m, name):
            return getattr(m, name)
    raise AttributeError(name)


def is_a(o, name):
    return name == 'EventIOObject' or evio.class_name(o.type) == name


# ------------------------------------------------------------------ the reference: (objects that must, objects that may be delivered)
def top(objs, name):
    m = [o for o in objs if is_a(o, name)]
    return m, m


def path(objs, names):
    must, may = [], []

    def visit(objs, level, inside):
        for o in objs:
            if is_a(o, names[-1]):
                may.append(o)
                if level == len(names) - 1 and not inside:
                    must.append(o)
            if level < len(names) - 1 and is_a(o, names[level]) and o.sub:
                visit(o.children, level + 1, inside or is_a(o, names[-1]))
    visit(objs, 0, False)
    return must, may


def anywhere(objs, name):
    must, may = [], []

    def visit(objs, inside):
        for o in objs:
            hit = is_a(o, name)
            if hit:
                may.append(o)
                if not inside:
                    must.append(o)
            if o.sub:
                visit(o.children, inside or hit)
    visit(objs, False)
    return must, may


def first_n(objs, name, n):
    must, may = anywhere(objs, name)
    return must, may, n


# ------------------------------------------------------------------ comparing
class Found:
    """delivered objects, and whether their payload is right"""

    def __init__(self, forward, when):
        self.objects = []
        self.forward = forward
        self.when = when

    def add(self, o):
        if self.when == 'at once':
            self.objects.append((o, payload(o, self.forward)))
        else:
            self.objects.append((o, None))

    def finish(self):
        if self.when == 'later' and not self.forward:
            out = [(o, payload(o, False)) for o, _ in self.objects[::-1]]
            self.objects = out[::-1]


def payload(o, forward):
    if forward and o.header.only_subobjects:
        return None
    try:
        if not forward:
            o.seek(0)
            return o.read()
        at = o.tell()
        return at, o.read()
    except EOFError:
        return EOFError


def compare(found, must, may, have, what, limit=None):
    """limit: only the first n"""
    found.finish()
    at = 0
    got = []
    for o, b in found.objects:
        m = next((x for x in may if x.address == o.header.content_address), None)
        if m is None:
            fail('{}: {} at {} does not match', what, o, o.header.content_address)
        if any(m is x for x in got):
            fail('{}: {} is delivered again', what, m)
        if got and got[-1].start >= m.start:
            fail('{}: {} after {}', what, m, got[-1])
        if o.header.type != m.type or o.header.id != m.id or type(o).__name__ != evio.class_name(m.type):
            fail('{}: {} instead of {}', what, o, m)
        if isinstance(b, tuple):
            want = m.payload[b[0]:]
            b = b[1]
        else:
            want = m.payload
        if b is not None:
            if m.end <= have:
                if b != want:
                    fail('{}: {} has payload {} instead of {}', what, m, b, want)
            elif b is not EOFError:
                fail('{}: incomplete {} has payload {}', what, m, b)
        got.append(m)
    must = [m for m in must if m.end <= have]
    if limit is not None:
        if len(got) > limit:
            fail('{}: {} objects instead of at most {}', what, len(got), limit)
        if len(got) < min(limit, len(must)):
            fail('{}: {} objects instead of {}', what, len(got), min(limit, len(must)))
        must = [m for m in must if got and m.start <= got[-1].start]
    for m in must:
        if not any(m is x for x in got):
            fail('{}: {} is missing, found {}', what, m, got)
    return got


def call(f, helper, args, found, tolerant, what):
    """(ended, warned)"""
    from eventio import search_utils
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ended = 'end'
        try:
            r = getattr(search_utils, helper)(f, *args)
            if isinstance(r, (list, tuple)):
                # all were passed already, a forward reader cannot go back to them
                for o in r:
                    found.objects.append((o, None)) if found.forward else found.add(o)
            else:
                for o in r:
                    found.add(o[0] if isinstance(o, tuple) else o)
        except EOFError:
            if tolerant:
                fail('{}: EOFError although truncation is tolerated', what)
            ended = 'EOFError'
    return ended, bool(w)


TOLERANT = ('collect_toplevel_of_type', 'yield_toplevel_of_type', 'find_all_subobjects')


def requests(objs, classes, paths, ns):
    """[(helper, arguments, must, may, limit)]"""
    out = []
    for name in classes:
        out.append(('collect_toplevel_of_type', (name,), *top(objs, name), None))
        out.append(('yield_toplevel_of_type', (name,), *top(objs, name), None))
        out.append(('yield_subobjects', (name,), *anywhere(objs, name), None))
        for n in ns:
            out.append(('yield_n_subobjects', (name, n), *anywhere(objs, name), n))
        # three if not given
        out.append(('yield_n_subobjects', (name,), *anywhere(objs, name), 3))
    for p in paths:
        out.append(('find_all_subobjects', (p,), *path(objs, p), None))
        out.append(('yield_all_subobjects', (p,), *path(objs, p), None))
    return out


def real_args(args):
    return [cls(a) if isinstance(a, str) else [cls(x) for x in a] if isinstance(a, tuple) else a for a in args]


def search(path_, kw, forward, objs, have, cut, inside, classes, paths, ns, when, what, ctx, plain_eof=None):
    from eventio import EventIOFile
    base = objs
    if inside is not None:
        objs = objs[inside].children
    for helper, args, must, may, limit in requests(objs, classes, paths, ns):
        w = '{}: {}{} {}'.format(what, helper, args, when)
        if inside is not None and helper in ('yield_subobjects', 'yield_n_subobjects') and is_a(base[inside], args[0]):
            # the container itself may be delivered, too
            must, may = [], [base[inside]] + may
        with EventIOFile(path_, **kw) as f:
            start = f
            if inside is not None:
                for _ in range(inside + 1):
                    start = next(f)
            found = Found(forward, when)
            ended, warned = call(start, helper, real_args(args), found, helper in TOLERANT, w)
            if ended == 'EOFError' and not cut:
                fail('{}: EOFError of a complete file', w)
            if cut and plain_eof and helper in ('collect_toplevel_of_type', 'yield_toplevel_of_type') and not warned:
                fail('{}: no warning', w)
            if limit is not None and ended == 'EOFError' and len(found.objects) >= limit:
                fail('{}: EOFError although all {} were found', w, limit)
            compare(found, must, may, have, w, limit=limit)
        ctx.step()
        ctx.outcome(helper, len(found.objects), ended, warned)
    # depth first
    with EventIOFile(path_, **kw) as f:
        from eventio.search_utils import yield_all_objects_depth_first
        start = f
        if inside is not None:
            for _ in range(inside + 1):
                start = next(f)
        flat = list(trees.flat(objs))
        found = Found(forward, when)
        levels = []
        ended = 'end'
        try:
            for o, level in yield_all_objects_depth_first(start):
                levels.append(level)
                # a container was entered when its payload is read
                if when == 'at once' and (not o.header.only_subobjects):
                    found.add(o)
                else:
                    found.objects.append((o, None))
        except EOFError:
            ended = 'EOFError'
            if not cut:
                fail('{}: EOFError of a complete file', what)
        every = [o for o, _ in flat]
        got = compare(found, every, every, have, what + ': depth first')
        if levels != [lv for _, lv in flat[:len(levels)]] or len(got) != len(levels) or any(a is not b for a, b in zip(got, every)):
            fail('{}: depth first: {} at levels {}', what, got, levels)
        ctx.step()
    # the first of a type
    for name in classes:
        m = [o for o in objs if is_a(o, name)]
        with EventIOFile(path_, **kw) as f:
            start = f
            if inside is not None:
                for _ in range(inside + 1):
                    start = next(f)
            from eventio.search_utils import find_type
            k = 0
            while True:
                w = '{}: find_type {} number {}'.format(what, name, k)
                try:
                    o = find_type(start, cls(name))
                except ValueError:
                    if k < len(m) and m[k].end <= have:
                        fail('{}: not found', w)
                    break
                except EOFError:
                    if not cut or k < len(m) and m[k].end <= have:
                        fail('{}: EOFError', w)
                    break
                if k >= len(m) or o.header.content_address != m[k].address:
                    fail('{}: {} instead of {}', w, o, m[k:k + 1])
                b = payload(o, forward)
                if isinstance(b, tuple):
                    ok = b[1] == m[k].payload[b[0]:]
                else:
                    ok = b is None or b == m[k].payload or b is EOFError and m[k].end > have
                if not ok:
                    fail('{}: payload {}', w, b)
                if not forward:
                    o.seek(0)
                k += 1
            ctx.step()


def write(objs, variant='plain', cut=None):
    data = evio.build(objs)
    return 'tree.dat', evio.store('tree.dat', data if cut is None else data[:cut], variant), len(data)


# ------------------------------------------------------------------ complete files
def gen_trees(n, leaves, boxes, depth, variants):
    def g(c):
        objs = trees.gen_tree(c, n, leaves, boxes, depth)
        return objs, c.choose('variant', variants, free=True), c.choose('payloads are read', ('at once', 'later'), free=True)
    return g


def present(objs, all_):
    have = {evio.class_name(o.type) for o, _ in trees.flat(objs)}
    classes = [c for c in CLASSES if c in have or c == 'EventIOObject']
    classes.append(next(c for c in CLASSES if c not in have))
    return classes, [p for p in PATHS if p[-1] in have and p[0] in have or all_ or p == ('EventIOObject',)]


def run_trees(cases, ctx):
    for objs, variant, when in cases:
        p, kw, n = write(objs, variant)
        what = '{} {}'.format(variant, [(o.type, level) for o, level in trees.flat(objs)])
        classes, paths = present(objs, False)
        search(p, kw, not evio.seekable(variant), objs, n, False, None, classes, paths, (0, 1, 2, 3), when, what, ctx)
        for i, o in enumerate(objs):
            if o.sub and evio.seekable(variant):
                search(p, kw, False, objs, n, False, i, classes, paths, (1, 3), when, '{} inside object {}'.format(what, i), ctx)
                break
        ctx.state(what, when)


# ------------------------------------------------------------------ large files
def gen_many(c):
    n = c.choose('objects', (60, 300), free=True)
    how = c.choose('arrangement', ('flat', 'boxes', 'one box', 'deep'), free=True)
    every = c.choose('every', (1, 2, 7), free=True)
    leaf = lambda i: L.mc_event(i) if i % every == 0 else L.photons(i % 3, tel=i % 9)
    if how == 'flat':
        objs = [leaf(i) for i in range(n)]
    elif how == 'boxes':
        objs = [L.box(*[leaf(10 * i + j) for j in range(i % 10)], type_=(1204, 2010)[i % 2], ident=i) for i in range(n // 10)]
    elif how == 'one box':
        objs = [L.box(*[leaf(i) for i in range(n)], type_=2010), L.mc_event(n)]
    else:
        objs = [leaf(1)]
        for i in range(n // 6):
            objs = [leaf(i), L.box(*objs, type_=(2010, 1204)[i % 2], ident=i), leaf(i + 1)]
    return objs, c.choose('variant', ('plain', 'gzip', 'zst', 'zcat'), free=True), c.choose('payloads are read', ('at once', 'later'), free=True)


def run_many(cases, ctx):
    for objs, variant, when in cases:
        p, kw, n = write(objs, variant)
        what = '{} {} objects'.format(variant, len(list(trees.flat(objs))))
        classes, paths = present(objs, False)
        search(p, kw, not evio.seekable(variant), objs, n, False, None, classes, paths, (0, 1, 20, 255, 256, 10000), when, what, ctx)
        ctx.state(what, when)


# ------------------------------------------------------------------ truncated files
def fixed():
    return [
        [L.mc_event(), L.box(L.box(L.pixel_list(2), L.pixel_list(1), type_=2201), L.tracking(1), L.box(L.pixel_list(3), type_=3205),
                             type_=2010), L.mc_event(3), L.generic(5), L.box(L.photons(1), L.photons(0), L.photons(2), type_=1204),
         L.box(L.box(L.photons(1))), L.tracking(105)],
        [L.box(L.box(L.generic(4), L.mc_event(), ext=True), type_=1204), L.box(type_=2010), L.generic(0), L.mc_event(),
         L.box(L.box(L.mc_event(9), type_=2205), L.photons(1), type_=2010), L.mc_event(2)],
    ]


def gen_cut(variants):
    def g(c):
        i = c.choose('layout', 2, free=True)
        objs = fixed()[i]
        n = len(evio.build(objs))
        return i, 4 + c.choose('cut', n - 4, free=True), c.choose('variant', variants, free=True), \
            c.choose('payloads are read', ('at once', 'later'), free=True)
    return g


def run_cut(cases, ctx):
    from eventio import EventIOFile
    for i, cut, variant, when in cases:
        objs = fixed()[i]
        p, kw, n = write(objs, variant, cut)
        what = 'layout {} cut after {} of {}, {}'.format(i, cut, n, variant)
        with EventIOFile(p, **kw) as f:
            try:
                for o in f:
                    pass
                eof = False
            except EOFError:
                eof = True
        classes, paths = present(objs, False)
        search(p, kw, not evio.seekable(variant), objs, cut, True, None, classes, paths, (1, 2, 3), when, what, ctx, eof)
        ctx.state(i, cut, variant, when)


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return c.choose('file', files, free=True) if files else None
    return g


REAL_CLASSES = ['MCEvent', 'Photons', 'ADCSamples', 'ADCSums', 'PixelList', 'TrackingPosition', 'TelescopeEvent', 'CameraSettings', 'PhotoElectrons']
REAL_PATHS = [('ArrayEvent', 'TelescopeEvent', 'ADCSamples'), ('ArrayEvent', 'TelescopeEvent', 'PixelList'), ('ArrayEvent', 'TrackingPosition'),
              ('TelescopeData', 'PhotoElectrons'), ('TelescopeData', 'Photons'), ('MCShower',), ('CalibrationEvent', 'ArrayEvent', 'TelescopeEvent')]


def run_real(cases, ctx):
    for path_ in cases:
        data = codec.content(path_) if path_ else None
        objs = codec.complete_objs(data) if data else []
        if not objs:
            continue
        cut = objs[-1].end != len(data)
        with open('real.dat', 'wb') as f:
            f.write(data)
        search('real.dat', {}, False, objs, objs[-1].end, cut, None, REAL_CLASSES, REAL_PATHS, (1, 3), 'later', path_, ctx)
        ctx.state(path_)


def parts(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    return [
        Part('trees', gen_trees(n + 1, ['photons', 'mc event'], ['telescope data', 'array event'], 3, ['plain']),
             run_trees, batch=8, note='all trees of at most {} objects over four kinds, all criteria'.format(n + 1)),
        Part('kinds', gen_trees(n, LEAVES, BOXES, 3, ['plain']), run_trees, batch=8,
             note='all trees of at most {} objects over ten kinds, all criteria'.format(n)),
        Part('storage', gen_trees(n, ['photons', 'mc event'], ['array event', 'telescope data'], 2, ['gzip', 'zst', 'zcat']), run_trees, batch=4),
        Part('many', gen_many, run_many, note='many objects, deep nesting'),
        Part('truncated', gen_cut(['plain'] if q else ['plain', 'gzip', 'zst', 'zcat']), run_cut, batch=4, note='every cut position'),
        Part('real files', gen_real(300000 if q else None), run_real, batch=1),
    ]
