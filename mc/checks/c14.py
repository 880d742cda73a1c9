"""Parsing gives the same result in every history."""
import os

from .. import catalogue, codec, evio
from ..common import check_same, fail, freeze, need, spoil, stored
from ..engine import Part
from ..evio import Obj

ASSUMPTIONS = [
    'histories use at most the operations listed in the evidence, on files of three blocks of different kinds next to containers',
]

_blocks = None


def blocks():
    global _blocks
    if _blocks is None:
        _blocks = catalogue.all_blocks()
    return _blocks


def copy(o):
    return Obj(o.type, o.payload, version=o.version, ident=o.id)


# ---------------------------------------------------------------- every kind of block
BEFORE = ('nothing', 'parse', 'read 1', 'read all', 'read 5', 'seek 3', 'seek end', 'seek from end', 'parse next', 'read next', 'iterate file',
          'end of file', 'peek', 'file seek', 'file read', 'other again', 'parse and change', 'parse next and change')


def gen_kind(c):
    i = c.choose('block', len(blocks()), free=True)
    before = [c.choose('before', BEFORE, free=True) for _ in range(2)]
    nested = c.flag('nested', free=True)
    return i, before, nested, c.choose('stored', ('plain', 'gzip'))


def run_kind(cases, ctx):
    from eventio import EventIOFile
    n = len(blocks())
    for i, before, nested, variant in cases:
        name, m, e = blocks()[i]
        name2, m2, e2 = blocks()[(i * 7 + 3) % n]
        m, m2 = copy(m), copy(m2)
        tops = [Obj(60001, [m, m2]), Obj(60002, b'tail' * 5)] if nested else [m, m2, Obj(60002, b'tail' * 5)]
        path, kw = stored(evio.build(tops), variant, 'kind{}{}{}.dat'.format(i, nested, variant))
        what = '{} after {}, {}, {}'.format(name, before, 'nested' if nested else 'top level', variant)
        with EventIOFile(path, **kw) as f:
            if nested:
                top = next(f)
                a, b = next(top), next(top)
            else:
                a, b = next(f), next(f)
            results = []

            def parse(o, e):
                r = o.parse()
                check_same(r, e, what)
                results.append((r, e))

            for op in before:
                if op == 'parse':
                    parse(a, e)
                elif op == 'read 1':
                    a.read(1)
                elif op == 'read 5':
                    a.read(5)
                elif op == 'read all':
                    a.read()
                elif op == 'seek 3':
                    a.seek(3)
                elif op == 'seek end':
                    a.seek(len(m.payload))
                elif op == 'seek from end':
                    a.seek(2, 2)
                elif op == 'parse next':
                    parse(b, e2)
                elif op == 'parse and change':
                    spoil(a.parse())
                elif op == 'parse next and change':
                    spoil(b.parse())
                elif op == 'read next':
                    b.seek(0)
                    need(b.read(4) == m2.payload[:4], '{}: read of the other object', what)
                elif op == 'iterate file':
                    next(f, None)
                elif op == 'end of file':
                    list(f)
                elif op == 'peek':
                    f.peek()
                elif op == 'file seek':
                    f.seek(1)
                elif op == 'file read':
                    f.read(3)
                elif op == 'other again':
                    with EventIOFile(path, **kw) as f2:
                        o = next(f2)
                        parse(next(o) if nested else o, e)
                ctx.step()
            parse(a, e)
            parse(a, e)
            parse(b, e2)
            parse(a, e)
            for r, x in results:
                check_same(r, x, what + ', looked at again')
        ctx.step(4)
        ctx.state(i, tuple(before), nested, variant)
        ctx.outcome(i)


# ---------------------------------------------------------------- histories over three objects
TRIPLES = [
    ('photon bunches', 'photo-electrons', 'telescope definition'),
    ('adc samples', 'pixel timing', 'camera settings'),
    ('mc shower', 'histograms', 'input card'),
    ('trigger information', 'telescope event header', 'history metadata'),
    ('atmospheric profile', 'camera organization', 'adc sums'),
    ('camera monitoring', 'laser calibration', 'pixel monitoring'),
    ('image parameters', 'longitudinal', 'pixel settings'),
    ('run header', 'event header', 'particles'),
]
ACTIONS = ('parse', 'read 6', 'read all', 'seek 2')


def gen_history(depth, triples):
    def gen(c):
        t = c.choose('blocks', triples, free=True)
        ops = []
        for _ in range(depth):
            k = c.choose('op', 1 + 3 * len(ACTIONS) + 5, free=True)
            if k == 0:
                break
            k -= 1
            if k < 3 * len(ACTIONS):
                ops.append((ACTIONS[k // 3], k % 3))
            else:
                ops.append((('next', 'peek', 'walk', 'file seek', 'list')[k - 3 * len(ACTIONS)], None))
        return t, ops
    return gen


def run_history(cases, ctx):
    from eventio import EventIOFile
    for t, ops in cases:
        three = [catalogue.one(n, version=9) for n in t]
        ms = [copy(m) for m, e in three]
        es = [e for m, e in three]
        other = [Obj(60003, b'abcdef'), Obj(60004, b'ghi')]
        rest = [Obj(60005, b'1'), Obj(60006, b'23')]
        tops = [Obj(60001, ms[:1] + other), ms[1], Obj(60002, [ms[2]])] + rest
        path, kw = stored(evio.build(tops), 'plain', 'history{}.dat'.format(TRIPLES.index(t)))
        what = '{} {}'.format(t, ops)
        with EventIOFile(path, **kw) as f:
            c1 = next(f)
            os_ = [next(c1), next(f), next(next(f))]
            pos = [o.tell() for o in os_]
            results = []
            for op, k in ops:
                if op == 'parse':
                    r = os_[k].parse()
                    check_same(r, es[k], what)
                    results.append((r, es[k]))
                    os_[k].seek(0)
                    pos[k] = 0
                elif op.startswith('read'):
                    n = 6 if op == 'read 6' else len(ms[k].payload)
                    b = os_[k].read(6) if op == 'read 6' else os_[k].read()
                    need(b == ms[k].payload[pos[k]:pos[k] + n], '{}: read gives {}', what, b[:50])
                    pos[k] += len(b)
                elif op == 'seek 2':
                    os_[k].seek(2)
                    pos[k] = 2
                elif op == 'next':
                    x = next(f, None)
                    y = rest.pop(0) if rest else None
                    need((x is None) == (y is None) and (x is None or x.header.type == y.type), '{}: next gives {}', what, x)
                elif op == 'peek':
                    x = f.peek()
                    need((x is None) == (not rest) and (x is None or x.header.type == rest[0].type), '{}: peek gives {}', what, x)
                elif op == 'walk':
                    x = next(c1, None)
                    y = other.pop(0) if other else None
                    need((x is None) == (y is None) and (x is None or x.read() == y.payload), '{}: sub-object {}', what, x)
                elif op == 'file seek':
                    f.seek(5)
                elif op == 'list':
                    need([x.header.type for x in f] == [y.type for y in rest], '{}: rest of the file', what)
                    rest = []
                ctx.step()
            for k in (2, 0, 1, 1):
                r = os_[k].parse()
                check_same(r, es[k], what + ', object {} at the end'.format(k))
                results.append((r, es[k]))
            for r, e in results:
                check_same(r, e, what + ', looked at again')
        ctx.step(4)
        ctx.state(t, tuple(ops))
        ctx.outcome(t, len(ops))


# ---------------------------------------------------------------- resource files in several orders
ORDERS = ('reversed', 'twice', 'read first', 'end first', 'outside in')


def gen_files(c):
    files = codec.resource_files(os.environ['MC_REPO'])
    if not files:
        return None
    return c.choose('file', files, free=True), c.choose('order', ORDERS, free=True)


def select(f, per_kind=3, limit=90):
    """up to per_kind objects of each (type, version) that is no container"""
    count = {}
    out = []

    def visit(o):
        if len(out) >= limit:
            return
        if o.header.only_subobjects:
            for s in o:
                visit(s)
            return
        key = o.header.type, o.header.version
        if count.get(key, 0) < per_kind and o.size < 3000000:
            count[key] = count.get(key, 0) + 1
            out.append(o)

    try:
        for o in f:
            visit(o)
            if len(out) >= limit:
                break
    except EOFError:
        pass
    return out


def attempt(o):
    try:
        return o.parse()
    except Exception as e:
        return type(e).__name__


def run_files(cases, ctx):
    from eventio import EventIOFile
    for case in cases:
        if case is None or codec.content(case[0]) is None:
            continue
        path, order = case
        # the file is made plain, going back in compressed files is slow
        with open('res.dat', 'wb') as g:
            g.write(codec.content(path)[:20000000])
        with EventIOFile('res.dat') as f:
            # reference: each right when it is found the first time
            first = {}
            for o in select(f):
                first[o.address] = None
        with EventIOFile('res.dat') as f:
            for o in select(f):
                first[o.address] = freeze(attempt(o))
        with EventIOFile('res.dat') as f:
            objs = select(f)
            if order == 'reversed':
                objs.reverse()
            elif order == 'outside in':
                objs = [x for p in zip(objs, reversed(objs)) for x in p]
            elif order == 'end first':
                list(f) if 'truncated' not in path and 'v3' not in path else None
            results = []
            for o in objs:
                if order == 'read first':
                    try:
                        o.read(7)
                        o.read()
                    except EOFError:
                        pass
                for _ in range(1 + (order == 'twice')):
                    r = attempt(o)
                    check_same(r, first[o.address], '{} at {} in {}, {}'.format(o, o.address, path, order))
                    results.append((r, first[o.address], o))
                ctx.step()
                ctx.state(path, o.address, order)
            for r, e, o in results:
                check_same(r, e, '{} at {} in {}, {}, looked at again'.format(o, o.address, path, order))
        ctx.outcome(path, len(objs))
        os.remove('res.dat')


def parts(tier):
    q = tier == 'quick'
    return [
        Part('kinds', gen_kind, run_kind, bound=0 if q else 1, batch=64, note='every block in every version, after all pairs of 18 operations'),
        Part('histories', gen_history(3 if q else 4, TRIPLES[:3] if q else TRIPLES), run_history, batch=128,
             note='all sequences of 17 operations on three objects and their file'),
        Part('resource files', gen_files, run_files, batch=1, note='real blocks in five orders'),
    ]
