"""Photon bunches, whole or in chunks, with other accesses between the chunks."""
import struct

import numpy as np

from ._codec import codec_parts, ASSUMPTIONS
from .. import codec, evio
from ..common import Arr, Near, check_same, fail, need, stored
from ..engine import Part
from ..specs import C17, photon_result, photon_columns


def special(o, m, expected, what):
    got = o.n_bunches, o.array_id, o.telescope_id, bool(o.compact)
    exp = struct.unpack_from('<i', m.payload, 8)[0], m.id // 1000, m.id % 1000, m.version // 1000 == 1
    if got != exp:
        fail('{}: (n_bunches, array_id, telescope_id, compact) is {} instead of {}', what, got, exp)


def block(n, compact, shift=0, emitters=(), ident=1002):
    """(Obj, raw array)"""
    if compact:
        a = ((np.arange(n * 8).reshape(n, 8) * 37 + shift * 1111) % 60000 - 30000).astype('<i2')
    else:
        a = (np.arange(n * 8).reshape(n, 8) + shift * 1000 + 0.5).astype('<f4')
    a[:, 7] = 400
    for i in emitters:
        a[i, 7] = 9999
    p = struct.pack('<hhfi', ident // 1000, ident % 1000, 3.5, n) + a.tobytes()
    return evio.Obj(1205, p, version=1000 * compact, ident=ident), a


def join(chunks):
    """what all chunks together are"""
    p = [c[0] for c in chunks]
    e = [c[1] for c in chunks if c[1] is not None]
    p = [x for x in p if len(x)] or p[:1]
    return [np.concatenate(p), np.concatenate(e) if e else None]


# ---------------------------------------------------------------- all chunk sizes
def gen_chunks(max_n):
    def gen(c):
        n = c.choose('bunches', range(max_n + 1), free=True)
        compact = c.flag('compact', free=True)
        k = c.choose('chunk size', list(range(1, n + 3)) + [1 << 20], free=True)
        m = c.choose('emitters', 1 << min(n, 5), free=True)
        variant = c.choose('stored', ['plain', 'gzip'])
        return n, compact, k, [i for i in range(n) if m >> i % 5 & 1], variant
    return gen


def run_chunks(cases, ctx):
    from eventio import EventIOFile
    for n, compact, size, emitters, variant in cases:
        o, a = block(n, compact, 1, emitters)
        data = evio.build([evio.Obj(60001, b'abc'), evio.Obj(1204, [block(3, compact, 2)[0], o, block(2, compact, 3)[0]])])
        path, kw = stored(data, variant)
        what = '{} bunches, compact {}, emitters {}, chunks of {}'.format(n, compact, emitters, size)
        with EventIOFile(path, **kw) as f:
            next(f)
            p = list(next(f))[1]
            chunks = []
            for x in p.parse(chunksize=size):
                chunks.append(x)
                total = len(x[0]) + (len(x[1]) if x[1] is not None else 0)
                need(total <= size, '{}: a chunk has {}', what, total)
                ctx.step()
            check_same(join(chunks), photon_result(a, compact), what)
            check_same(p.parse(), photon_result(a, compact), what + ', parsed at once afterwards')
        ctx.state(n, compact, size, tuple(emitters))
        ctx.outcome(tuple(len(x[0]) for x in chunks))


# ---------------------------------------------------------------- interleavings
OPS = ('chunk a', 'chunk b', 'parse a2', 'read c', 'parse c', 'seek c', 'next', 'peek', 'chunk a2', 'walk')


def gen_between(depth, sizes):
    def gen(c):
        compact = c.flag('compact', free=True)
        size = c.choose('chunk size', (2, 1, 3)[:sizes], free=True)
        variant = c.choose('stored', ['plain', 'gzip'], free=True)
        ops = []
        for i in range(depth):
            op = c.choose('op', ('end',) + OPS, free=True)
            if op == 'end':
                break
            ops.append(op)
        return compact, size, variant, ops
    return gen


def run_between(cases, ctx):
    from eventio import EventIOFile
    for compact, size, variant, ops in cases:
        A, a = block(5, compact, 1, (1, 4))
        B, b = block(4, compact, 5, (0,), 2003)
        C = evio.Obj(60002, bytes(range(100, 140)))
        D = evio.Obj(60003, b'later')
        A2, a2 = block(3, compact, 8, (2,), 3004)
        E, e = block(2, compact, 11)
        E2 = evio.Obj(1204, [E])
        data = evio.build([evio.Obj(1204, [A, B, A2]), C, E2, D])
        path, kw = stored(data, variant)
        what = 'compact {}, {}, chunks of {}, {}'.format(compact, variant, size, ops)
        with EventIOFile(path, **kw) as f:
            top = next(f)
            oa, ob, oa2 = list(top)
            oc = next(f)
            oe = next(f)
            walked = []
            ga, gb = oa.parse(chunksize=size), ob.parse(chunksize=size)
            done = {'a': [], 'b': []}
            pos_c = 0
            after = [D]

            def chunk(name):
                g, n = (ga, 5) if name == 'a' else (gb, 4)
                x = next(g, None)
                if x is None:
                    need(len(join(done[name])[0]) + sum(len(y[1]) for y in done[name] if y[1] is not None) == n,
                         '{}: chunks of {} end early', what, name)
                else:
                    done[name].append(x)
                    need(len(x[0]) + (len(x[1]) if x[1] is not None else 0) <= size, '{}: too large chunk', what)

            def other(t, m):
                if (t is None) != (m is None) or t is not None and t.address != m.address:
                    fail('{}: got {} instead of {}', what, t, m)

            for op in ops:
                if op == 'chunk a':
                    chunk('a')
                elif op == 'chunk b':
                    chunk('b')
                elif op == 'read c':
                    x = oc.read(7)
                    check_same(x, C.payload[pos_c:pos_c + 7], what)
                    pos_c = min(len(C.payload), pos_c + 7)
                elif op == 'seek c':
                    oc.seek(3)
                    pos_c = 3
                elif op == 'parse c':
                    try:
                        oc.parse()
                        fail('{}: parsed an unknown object', what)
                    except NotImplementedError:
                        pass
                elif op == 'next':
                    other(next(f, None), after.pop(0) if after else None)
                elif op == 'peek':
                    other(f.peek(), after[0] if after else None)
                elif op == 'walk':
                    x = next(oe, None)
                    need((x is None) == bool(walked), '{}: walked {} after {}', what, x, walked)
                    if x is not None:
                        walked.append(x)
                    check_same(walked[0].parse(), photon_result(e, compact), what)
                elif op == 'parse a2':
                    check_same(oa2.parse(), photon_result(a2, compact), what)
                elif op == 'chunk a2':
                    check_same(join(list(oa2.parse(chunksize=2))), photon_result(a2, compact), what)
                ctx.step()
            ctx.state(compact, size, variant, tuple(ops))
            done['a'] += ga
            done['b'] += gb
            check_same(join(done['a']), photon_result(a, compact), what + ', first block')
            check_same(join(done['b']), photon_result(b, compact), what + ', second block')
            ctx.outcome(tuple(sorted(set(ops))))


# ---------------------------------------------------------------- the same block in other ways
SAME = ('chunk', 'other chunk', 'parse', 'read', 'seek', 'all chunks')


def gen_same(depth):
    def gen(c):
        compact = c.flag('compact', free=True)
        emitters = c.choose('emitters', [(), (1, 4)], free=True)
        sizes = c.choose('chunk sizes', [(2, 3), (1, 2), (4, 4)], free=True)
        variant = c.choose('stored', ['plain', 'gzip'], free=True)
        ops = []
        for i in range(depth):
            op = c.choose('op', ('end',) + SAME, free=True)
            if op == 'end':
                break
            ops.append(op)
        return compact, emitters, sizes, variant, ops
    return gen


def run_same(cases, ctx):
    from eventio import EventIOFile
    for compact, emitters, sizes, variant, ops in cases:
        o, a = block(5, compact, 1, emitters)
        expected = photon_result(a, compact)
        path, kw = stored(evio.build([evio.Obj(1204, [block(2, compact, 4)[0], o]), evio.Obj(60001, b'later')]), variant)
        what = 'compact {}, emitters {}, {}, chunks of {}, {}'.format(compact, emitters, variant, sizes, ops)
        with EventIOFile(path, **kw) as f:
            p = list(next(f))[1]
            gens = [p.parse(chunksize=k) for k in sizes]
            done = [[], []]

            def chunk(i):
                x = next(gens[i], None)
                if x is not None:
                    done[i].append(x)
                    need(len(x[0]) + (len(x[1]) if x[1] is not None else 0) <= sizes[i], '{}: too large chunk', what)

            for op in ops:
                if op == 'chunk':
                    chunk(0)
                elif op == 'other chunk':
                    chunk(1)
                elif op == 'parse':
                    check_same(p.parse(), expected, what)
                elif op == 'all chunks':
                    check_same(join(list(p.parse(chunksize=3))), expected, what)
                elif op == 'seek':
                    p.seek(7)
                elif op == 'read':
                    p.seek(3)
                    check_same(p.read(20), o.payload[3:23], what)
                ctx.step()
            ctx.state(compact, emitters, sizes, variant, tuple(ops))
            for i in 0, 1:
                done[i] += gens[i]
                check_same(join(done[i]), expected, '{}, {} chunks'.format(what, ('first', 'second')[i]))
            ctx.outcome(tuple(len(x[0]) for x in done[0]))


# ---------------------------------------------------------------- all compact values
def gen_values(c):
    return c.choose('column', 8, free=True), c.choose('sixteenth', 16, free=True), c.choose('as', ['bunches', 'particles'], free=True)


def run_values(cases, ctx):
    from eventio import EventIOFile
    for col, part, kind in cases:
        n = 4096
        a = np.zeros((n, 8), '<i2')
        a[:, 7] = 300
        a[:, col] = (np.arange(n) + part * n - 32768).astype('<i2')
        ident = 999999 if kind == 'particles' else 7001
        o = evio.Obj(1205, struct.pack('<hhfi', 7, 1, 3.5, n) + a.tobytes(), version=1000, ident=ident)
        with open('values.dat', 'wb') as f:
            f.write(evio.build([evio.Obj(1204, [o])]))
        with EventIOFile('values.dat') as f:
            for p in next(f):
                check_same(p.parse(), photon_result(a, True, kind == 'particles'), 'compact column {}'.format(col))
        ctx.step(n)
        ctx.state(col, part, kind)


def parts(tier):
    q = tier == 'quick'
    out = [
        Part('chunk sizes', gen_chunks(6 if q else 9), run_chunks, bound=1, batch=64,
             note='all numbers of bunches, emitter distributions and chunk sizes'),
        Part('between chunks', gen_between(4 if q else 5, 2 if q else 3), run_between, bound=0, batch=64,
             note='all sequences of chunks of two blocks and accesses to other objects'),
        Part('same block', gen_same(4 if q else 5), run_same, bound=0, batch=64,
             note='all sequences of chunks of a block and other accesses to the same block'),
        Part('compact values', gen_values, run_values, bound=0, batch=1, note='all 65536 values of each compact column'),
    ]
    for p in codec_parts(C17, tier):
        if p.name != 'resource files':
            p.run = codec.make_run(special=special)
        out.append(p)
    return out
