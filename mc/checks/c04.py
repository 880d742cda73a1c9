"""C04: an object is an exact window onto its payload."""
from .. import evio, layouts as L
from ..common import fail, stored
from ..engine import Part

ASSUMPTIONS = ['the file does not change while it is read',
               'offsets of seek(offset, 2) count back from the end, as the code defines it; a position beyond the '
               'end or before the start may be refused or adjusted, it may never give bytes that are not payload']


def op_list(s, reduced=False):
    ops = [('read',), ('read', -1), ('read', 0), ('read', 1), ('read', 2), ('read', s), ('read', s + 3)]
    ops += [('seek', k, 0) for k in sorted({0, 1, s, s + 2})]
    ops += [('seek', k, 1) for k in (-1, 0, 1, 2)]
    ops += [('seek', k, 2) for k in sorted({0, 1, s, s + 2})]
    ops += [('tell',), ('seek', 0), ('seek', -1, 0), ('seek', 1, 3), ('seek', 1, -1)]
    ops += [('f.read', 3), ('f.seek', 0), ('f.next',), ('f.peek',), ('other.read', 2), ('other.seek', 0),
            ('parent.next',), ('other.read all',)]
    if reduced:
        ops = [('read',), ('read', 1), ('read', s + 3), ('seek', 1, 0), ('seek', -1, 1), ('seek', 1, 2), ('seek', s + 2, 0),
               ('f.read', 3), ('f.seek', 0), ('f.next',), ('other.read', 2), ('parent.next',)]
    return ops


SIZES = [0, 1, 5, 16]


def gen(depth, sizes, variants, reduced):
    def g(c):
        s = c.choose('size', sizes, free=True)
        where = c.choose('where', ['top', 'nested', 'last'], free=True)
        variant = c.choose('variant', variants, free=True)
        ops = op_list(s, reduced)
        return s, where, variant, [c.choose('op', ops, free=True) for _ in range(depth)]
    return g


def layout(s, where):
    x = L.generic(s, ident=50)
    y = L.generic(7, type_=61000)
    if where == 'top':
        tops = [L.generic(4), x, y, L.mc_event()]
    elif where == 'nested':
        tops = [L.generic(4), L.box(y, x, L.mc_event()), L.generic(6)]
    else:
        tops = [y, L.box(L.generic(2)), x]
    return evio.build(tops), x.payload, y.payload


def run(cases, ctx):
    from eventio import EventIOFile
    for s, where, variant, program in cases:
        data, payload, other = layout(s, where)
        path, kw = stored(data, variant)
        with EventIOFile(path, **kw) as f:
            first = next(f)
            if where == 'nested':
                parent = next(f)
                y = next(parent)
                x = next(parent)
            elif where == 'top':
                x = next(f)
                y = first
                parent = None
                y = next(f)
            else:
                y = first
                parent = next(f)
                x = next(f)
            pos = 0          # model: position in the payload
            ypos = 0
            for k, op in enumerate(program):
                ctx.step()
                what = 'size {} {} {} {}'.format(s, where, variant, program[:k + 1])
                name = op[0]
                if name == 'read':
                    n = op[1] if len(op) > 1 else -1
                    exp = payload[min(pos, s):] if n == -1 else payload[min(pos, s):min(pos, s) + n]
                    got = x.read(*op[1:])
                    if got != exp:
                        fail('{}: read {} instead of {}', what, got, exp)
                    pos += len(exp)
                elif name == 'seek':
                    off, whence = op[1], op[2] if len(op) > 2 else 0
                    new = off if whence == 0 else pos + off if whence == 1 else max(s - off, 0) if whence == 2 else -1
                    try:
                        r = x.seek(*op[1:])
                    except (ValueError, OSError, AssertionError):
                        if 0 <= new <= s:
                            raise
                    else:
                        if 0 <= new <= s:
                            if r is not None and r != new:
                                fail('{}: seek returns {} instead of {}', what, r, new)
                            pos = new
                        else:
                            if whence not in (0, 1, 2):
                                fail('{}: accepted', what)
                            pos = x.tell()
                            if pos < 0 or new > s and pos < s or new < 0 and pos > s:
                                fail('{}: position {}', what, pos)
                elif name == 'tell':
                    pass
                elif name == 'f.read':
                    f.read(op[1])
                elif name == 'f.seek':
                    f.seek(op[1])
                elif name == 'f.next':
                    next(f, None)
                elif name == 'f.peek':
                    f.peek()
                elif name == 'other.read':
                    b = y.read(op[1])
                    if b != other[ypos:ypos + op[1]]:
                        fail('{}: other object: {} at {}', what, b, ypos)
                    ypos += len(b)
                elif name == 'other.read all':
                    b = y.read()
                    if b != other[ypos:]:
                        fail('{}: other object: {} at {}', what, b, ypos)
                    ypos = len(other)
                elif name == 'other.seek':
                    y.seek(op[1])
                    ypos = op[1]
                elif name == 'parent.next':
                    if parent is not None:
                        next(parent, None)
                if x.tell() != pos:
                    fail('{}: position {} instead of {}', what, x.tell(), pos)
                if y.tell() != ypos:
                    fail('{}: position of the other object {} instead of {}', what, y.tell(), ypos)
                ctx.state(s, where, variant, pos, ypos, name)
            rest = x.read()
            if rest != payload[min(pos, s):]:
                fail('size {} {} {} {}: then read {} instead of {}', s, where, variant, program, rest, payload[min(pos, s):])
            ctx.outcome(s, where, pos, rest)


def gen_container(c):
    """containers are windows, too; walking continues independently"""
    variant = c.choose('variant', ['plain', 'gzip'], free=True)
    ops = [('read', 3), ('read',), ('seek', 0), ('seek', 4), ('next',), ('child.read', 2), ('f.read', 2), ('f.next',)]
    return variant, [c.choose('op', ops, free=True) for _ in range(4)]


def run_container(cases, ctx):
    from eventio import EventIOFile
    for variant, program in cases:
        kids = [L.generic(3), L.mc_event(), L.box(L.generic(2))]
        box = L.box(*kids)
        data = evio.build([box, L.generic(5)])
        path, kw = stored(data, variant)
        with EventIOFile(path, **kw) as f:
            o = next(f)
            n, child, cpos = 0, None, 0
            pos = o.tell()
            for k, op in enumerate(program):
                what = '{} {}'.format(variant, program[:k + 1])
                ctx.step()
                if op[0] == 'read':
                    pos = o.tell()
                    b = o.read(*op[1:])
                    exp = box.payload[pos:pos + op[1]] if len(op) > 1 else box.payload[pos:]
                    if b != exp:
                        fail('{}: {} instead of {}', what, b, exp)
                elif op[0] == 'seek':
                    o.seek(op[1])
                    if o.tell() != op[1]:
                        fail('{}: at {}', what, o.tell())
                elif op[0] == 'next':
                    x = next(o, None)
                    if (x is None) != (n >= 3):
                        fail('{}: delivers {} as sub-object {} of 3', what, x, n)
                    if x is not None:
                        m = kids[n]
                        if (x.address, x.size, x.header.type, x.header.id) != (m.address, m.size, m.type, m.id):
                            fail('{}: delivers {} instead of {}', what, x, m)
                        child, cm, cpos = x, m, 0
                        n += 1
                elif op[0] == 'child.read' and child is not None:
                    b = child.read(op[1])
                    if b != cm.payload[cpos:cpos + op[1]]:
                        fail('{}: {} at {}', what, b, cpos)
                    cpos += len(b)
                elif op[0] == 'f.read':
                    f.read(op[1])
                elif op[0] == 'f.next':
                    next(f, None)
                ctx.state(variant, n, cpos)
            while n < 3:
                x = next(o)
                if x.address != kids[n].address:
                    fail('{}: then {} instead of {}', program, x, kids[n])
                n += 1
            if next(o, None) is not None:
                fail('{}: too many sub-objects', program)
            ctx.outcome(variant, n, cpos)


def parts(tier):
    q = tier == 'quick'
    out = [
        Part('depth 2', gen(2, SIZES, ['plain', 'gzip', 'gzip2'], False), run, batch=64,
             note='all sequences of 2 operations (30 operations), 4 payload sizes, 3 places, 3 storage forms'),
        Part('depth 3', gen(3, [0, 1, 5] if q else SIZES, ['plain', 'gzip'], False), run, batch=64, note='all sequences of 3 operations'),
        Part('deep', gen(4 if q else 5, [5], ['plain', 'gzip'], True), run, batch=64,
             note='all sequences of {} of 12 operations'.format(4 if q else 5)),
        Part('container', gen_container, run_container, batch=64, note='all sequences of 4 of 8 operations on a container'),
    ]
    return out
