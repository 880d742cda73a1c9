"""C02: top-level iteration delivers every object once, in order."""
from .. import big, evio, layouts as L
from ..common import fail, check_header
from ..engine import Part

ASSUMPTIONS = ['file system reads of a closed, unchanging file']

LAYOUTS = [
    lambda: [L.mc_event(), L.box(L.generic(5), L.photons(1)), L.input_card()],
    lambda: [L.photons(2), L.generic(0), L.box(L.box(L.generic(3), type_=70), L.history_line(), type_=70)],
    lambda: [L.telescopes(1), L.meta(), L.generic(7, ext=True), L.tracking(101)],
    lambda: [L.box(), L.box(L.box()), L.generic(1)],
]

OPS = ['peek', 'f.read(5)', 'f.read()', 'f.seek(0)', 'f.seek(end)', 'f.seek(20)', 'f.tell',
       'last.read()', 'last.read(3)', 'last.seek(0)', 'last.seek(2)', 'last.parse', 'last.next', 'last.walk',
       'first.read(2)', 'first.seek(0)', 'first.parse', 'first.walk', 'iter(f)', 'last.deep']


def gen(variants):
    def g(c):
        layout = c.choose('layout', len(LAYOUTS), free=True)
        variant = c.choose('variant', variants, free=True)
        verify = c.choose('verify payload', ['later', 'at once'], free=True)
        objs = LAYOUTS[layout]()
        data = evio.build(objs)
        program = []
        for i in range(len(objs) + 1):
            while True:
                op = c.choose('op', ['none'] + OPS)
                if op == 'none':
                    break
                program.append(op)
            program.append('next')
        return objs, data, variant, verify, program, layout
    return g


def walk(o):
    for s in o:
        if s.header.only_subobjects:
            walk(s)
        else:
            s.read()


def do(op, f, out, data):
    last = out[-1] if out else None
    first = out[0] if out else None
    if op.startswith('last') and last is None or op.startswith('first') and first is None:
        return
    if op == 'peek':
        f.peek()
    elif op == 'f.read(5)':
        f.read(5)
    elif op == 'f.read()':
        f.read()
    elif op == 'f.seek(0)':
        f.seek(0)
    elif op == 'f.seek(20)':
        f.seek(20)
    elif op == 'f.seek(end)':
        f.seek(len(data))
    elif op == 'f.tell':
        f.tell()
    elif op == 'iter(f)':
        if iter(f) is not f:
            next(iter(f).__iter__())
    elif op == 'last.read()':
        last.read()
    elif op == 'last.read(3)':
        last.read(3)
    elif op == 'last.seek(0)':
        last.seek(0)
    elif op == 'last.seek(2)':
        last.seek(2)
    elif op == 'last.parse':
        last.parse()
    elif op == 'last.next':
        next(last)
    elif op == 'last.walk':
        for s in last:
            pass
    elif op == 'last.deep':
        walk(last)
    elif op == 'first.read(2)':
        first.read(2)
    elif op == 'first.seek(0)':
        first.seek(0)
    elif op == 'first.parse':
        first.parse()
    elif op == 'first.walk':
        for s in first:
            pass


def run(cases, ctx):
    from eventio import EventIOFile
    for objs, data, variant, verify, program, layout in cases:
        kw = evio.store('f.dat', data, variant)
        stream = not evio.seekable(variant)
        with EventIOFile('f.dat', **kw) as f:
            out = []
            consumed = False      # the program may have skipped bytes a stream cannot give again
            trace = []
            for op in program:
                trace.append(op)
                if op != 'next':
                    try:
                        do(op, f, out, data)
                    except Exception as e:
                        trace[-1] += '!' + type(e).__name__
                    ctx.step()
                    continue
                try:
                    o = next(f)
                except StopIteration:
                    if len(out) < len(objs):
                        fail('{} {}: iteration ends after {} of {} objects', variant, trace, len(out), len(objs))
                    break
                except OSError:
                    # a stream cannot go back; it may refuse, it may not lie
                    if stream and any(t != 'next' for t in trace):
                        consumed = True
                        break
                    raise
                if len(out) >= len(objs):
                    fail('{} {}: more objects than stored: {}', variant, trace, o)
                check_header(o, objs[len(out)], '{} {}'.format(variant, trace))
                if verify == 'at once':
                    m = objs[len(out)]
                    try:
                        o.seek(0)
                    except OSError:
                        if not stream:
                            raise
                    else:
                        b = o.read()
                        if b != m.payload:
                            fail('{} {}: payload {} instead of {}', variant, trace, b, m.payload)
                out.append(o)
                ctx.step()
                ctx.state(layout, variant, len(out), tuple(trace[-3:]))
            if not stream:
                for o, m in zip(out, objs):
                    o.seek(0)
                    b = o.read()
                    if b != m.payload:
                        fail('{} {}: afterwards payload {} instead of {}', variant, trace, b, m.payload)
            ctx.outcome(tuple(trace), consumed)


# ------------------------------------------------------------- many objects
def gen_many(scale):
    def g(c):
        n = c.choose('objects', [100, 1000, 5000 * scale], free=True)
        kind = c.choose('kind', ('small', 'empty', 'boxes', 'mixed'), free=True)
        objs = []
        for i in range(n):
            k = kind if kind != 'mixed' else ('small', 'empty', 'boxes')[i % 3]
            objs.append(L.generic(i % 40, ident=i) if k == 'small' else L.generic(0, ident=i) if k == 'empty' else
                        L.box(L.generic(i % 5, ident=i), L.box(ident=1), ident=i, ext=i % 2 == 0))
        variant = c.choose('variant', ('plain', 'gzip', 'zst', 'zcat', 'gzip2', 'zst2', 'zcat2'), free=True)
        visit = c.choose('visit', ['none', 'peek', 'read', 'walk', 'go back'], free=True)
        return objs, evio.build(objs), variant, visit
    return g


def run_many(cases, ctx):
    from eventio import EventIOFile
    for objs, data, variant, visit in cases:
        kw = evio.store('many.dat', data, variant)
        what = '{} objects, {}, visit {}'.format(len(objs), variant, visit)
        with EventIOFile('many.dat', **kw) as f:
            got = []
            while True:
                if visit == 'peek':
                    f.peek()
                o = next(f, None)
                if o is None:
                    break
                if len(got) == len(objs):
                    fail('{}: more objects than stored: {}', what, o)
                m = objs[len(got)]
                check_header(o, m, what)
                if visit == 'read' and o.read() != m.payload:
                    fail('{}: payload of {}', what, m)
                elif visit == 'walk' and m.sub and len(list(o)) != len(m.children):
                    fail('{}: children of {}', what, m)
                elif visit == 'go back' and evio.seekable(variant) and got:
                    k = len(got) * 7919 % len(got) if variant == 'plain' else max(len(got) - 3, 0)
                    got[k].seek(0)
                    if got[k].read() != objs[k].payload:
                        fail('{}: payload of {} read at {}', what, objs[k], len(got))
                got.append(o)
                ctx.step()
            if len(got) != len(objs):
                fail('{}: iteration ends after {}', what, len(got))
            ctx.state(what, objs[0].children is None)
            ctx.outcome(len(objs), visit)


# ------------------------------------------------------------- objects of many GiB
def gen_big(n):
    def g(c):
        return [big.Node(60000 + i, c.choose('size', big.SIZES, free=True), ident=-i, version=i) for i in range(n)] \
            + [big.Node(60010, 9)], c.choose('visit', ['none', 'end of each', 'peek'], free=True)
    return g


def run_big(cases, ctx):
    from eventio import EventIOFile
    for nodes, visit in cases:
        big.write('big.dat', nodes)
        what = 'objects of {} bytes, visit {}'.format([m.size for m in nodes], visit)
        with EventIOFile('big.dat') as f:
            got = []
            for m in nodes:
                if visit == 'peek':
                    f.peek()
                o = next(f, None)
                if o is None:
                    fail('{}: iteration ends after {} objects', what, len(got))
                check_header(o, m, what)
                if visit == 'end of each':
                    o.seek(m.size - len(m.mark()))
                    if o.read(20) != m.mark():
                        fail('{}: wrong payload at the end', what)
                got.append(o)
                ctx.step()
            if next(f, None) is not None:
                fail('{}: object after the last one', what)
            for o, m in zip(got, nodes):
                o.seek(m.size - len(m.mark()))
                if o.read(20) != m.mark() or o.tell() != m.size:
                    fail('{}: afterwards wrong payload at the end', what)
            ctx.state(tuple(m.size for m in nodes))
            ctx.outcome(tuple(m.start for m in nodes))
        big.remove('big.dat')


def parts(tier):
    q = tier == 'quick'
    return [
        Part('seekable', gen(['plain', 'gzip']), run, bound=2 if q else 3, batch=8,
             note='4 layouts x all insertions of at most {} of {} operations between the steps'.format(2 if q else 3, len(OPS))),
        Part('zst', gen(['zst', 'zst2']), run, bound=2 if q else 3, batch=8, note='as seekable, forward-only stream'),
        Part('pipe', gen(['zcat', 'zcat2']), run, bound=1 if q else 2, batch=8, note='gzip process, forward-only stream'),
        Part('many', gen_many(1 if q else 6), run_many, note='up to {} objects'.format(5000 if q else 30000)),
        Part('large', gen_big(2 if q else 3), run_big, batch=8,
             note='{} objects of up to a TiB (sparse files), {} sizes each'.format(2 if q else 3, len(big.SIZES))),
    ]
