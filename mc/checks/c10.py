"""C10: closing releases every resource, in every history."""
import gc
import os
import time
import warnings

from .. import events, evio, layouts as L
from ..common import fail
from ..engine import HarnessError, Part

ASSUMPTIONS = [
    'CPython reference counting: dropping the last reference finalizes at once; reference cycles of the caller are collected first',
    'closing waits at most a second for the decompressor to end; a history that leaves one behind is repeated before it is reported, '
    'as the machine may be overloaded',
]

VARIANTS = ['plain', 'zcat', 'gzip', 'zst', 'zcat big', 'zst big']
READERS = ['EventIOFile', 'SimTelFile', 'IACTFile']
OPS = ['next', 'peek', 'read', 'walk', 'iterate', 'keep']
ENDS = ['close', 'close twice', 'with', 'with and close', 'error in with', 'del', 'del keeping objects', 'close and next']


def resources():
    """open descriptors and running or unreaped children of this process"""
    fds = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            fds[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    kids = set()
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/{}/children'.format(t)) as f:
                kids.update(f.read().split())
        except OSError:
            pass
    return fds, kids


_paths = {}


def path_for(reader, variant, content):
    key = reader, variant, content
    if key not in _paths:
        if reader == 'SimTelFile':
            data = events.content(simtel())
        elif reader == 'IACTFile':
            data = events.content(iact())
        else:
            data = evio.build([L.mc_event(), L.box(L.photons(3), L.generic(4)), L.input_card()])
        if variant.endswith('big'):
            # incompressible and far larger than a pipe
            data += evio.build([L.generic(3 << 18, ident=i) for i in range(2)]) if reader == 'EventIOFile' else \
                evio.build([evio.Obj(60000, bytes(1 << 20))])
        if content == 'cut':
            data = data[:len(data) * 2 // 3]
        elif content == 'damaged':
            n = len(data) // 2
            data = data[:n] + bytes(64) + data[n + 64:]
        elif content == 'other kind':
            data = evio.build([L.generic(8), L.input_card()])
        elif content == 'empty':
            data = b''
        elif content == 'text':
            data = b'some text' * 100
        elif content == 'big endian':
            data = data[3::-1] + data[4:]
        name = 'f{}.dat'.format(len(_paths))
        kw = evio.store(name, data, variant.split()[0])
        if content == 'cut archive' and variant != 'plain':
            os.truncate(name, os.path.getsize(name) * 2 // 3)
        _paths[key] = name, kw
    return _paths[key]


def simtel():
    out = list(events.header_part(2, (1, 2)))
    for s in (1, 2):
        out += [events.shower(s), events.mc_event(100 * s), events.array_event(
            100 * s, events.trigger_information(100 * s, (1, 2), (1, 2), s), [events.telescope_event(t, ('header',), s) for t in (1, 2)],
            [events.tracking(t, s) for t in (1, 2)])]
    return out


def iact():
    out = list(events.iact_header(2))
    return out + [events.event_header(1), events.offsets(1), events.telescope_data([events.photons(1), events.photons(2)]), events.event_end(1), events.run_end()]


def act(f, op, kept, state):
    """one step; errors end the use of the file, they are another property's business"""
    try:
        if op == 'next':
            it = state.get('it')
            if it is None:
                it = state['it'] = iter(f)
            kept.append(next(it))
            if len(kept) > 1:
                kept.pop(0)
        elif op == 'peek':
            if hasattr(f, 'peek'):
                f.peek()
        elif op == 'read':
            for o in kept[-1:]:
                if hasattr(o, 'read'):
                    o.read()
        elif op == 'walk':
            for o in kept[-1:]:
                if hasattr(o, 'header') and hasattr(o, 'only_subobjects'):
                    kept.append(next(o))
        elif op == 'keep':
            kept.append(f.tell)
        elif op == 'iterate':
            for o in f:
                kept.append(o)
    except Exception as e:
        state['errors'] = type(e).__name__


def history(reader, variant, content, ops, end):
    """open, use and close; returns what came of it"""
    import eventio
    path, kw = path_for(reader, variant, content)
    cls = getattr(eventio, reader)
    kept, state = [], {}
    try:
        f = cls(path, **kw)
    except Exception as e:
        return 'refused ' + type(e).__name__
    if end.startswith('with') or end == 'error in with':
        try:
            with f:
                for op in ops:
                    act(f, op, kept, state)
                if end == 'error in with':
                    raise KeyError('of the user')
        except KeyError as e:
            if end != 'error in with' or e.args != ('of the user',):
                raise
        else:
            if end == 'error in with':
                fail('{}: leaving the with block swallows the error of the user', reader)
        if end == 'with and close':
            f.close()
        keep_alive = f, kept, state
    else:
        for op in ops:
            act(f, op, kept, state)
        keep_alive = kept, state
        if end.startswith('close'):
            f.close()
            keep_alive = f, kept, state
            if end == 'close twice':
                f.close()
                f.close()
            if end == 'close and next':
                # may fail in any way, but must not open anything
                for op in ('next', 'read', 'peek'):
                    act(f, op, kept, state)
        elif end == 'del':
            # nothing of the file is kept
            kept.clear()
            state.clear()
            del f
        else:
            state.pop('it', None)
            kept[:] = [o for o in kept if hasattr(o, 'header') or isinstance(o, dict)]
            del f
    return keep_alive


def gen(readers, variants, contents, n, ends):
    def g(c):
        r = c.choose('reader', readers, free=True)
        v = c.choose('variant', variants, free=True)
        content = c.choose('content', contents, free=True)
        k = c.choose('steps', n + 1, free=True)
        ops = [c.choose('op', OPS, free=True) for _ in range(k)]
        return r, v, content, ops, c.choose('end', ends, free=True)
    return g


def run(cases, ctx):
    import eventio
    import logging
    for r, v, content, ops, end in cases:
        path_for(r, v, content)
        what = '{} {} {} {} {}'.format(r, v, content, ops, end)
        for attempt in range(4):
            gc.collect()
            before = resources()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    alive = history(r, v, content, ops, end)
            except Exception as e:
                import traceback
                fail('{}: {!r}\n{}', what, e, traceback.format_exc())
            after = resources()
            if after == before:
                break
            gc.collect()
            after = resources()
            new = {k: x for k, x in after[0].items() if before[0].get(k) != x}, after[1] - before[1]
            if not new[0] and not new[1]:
                break
            time.sleep(0.2 * attempt)
            alive = None
            clean_children()
        else:
            fail('{}: left behind: descriptors {}, processes {}', what, *new)
        ctx.step(len(ops) + 2)
        ctx.state(r, v, content, tuple(ops), end)
        ctx.outcome(r, v, alive if isinstance(alive, str) else 'used')
        alive = None
        gc.collect()


def clean_children():
    """so that what one attempt leaves behind is not taken for that of the next"""
    import signal
    gc.collect()
    time.sleep(0.05)
    for p in resources()[1]:
        try:
            os.kill(int(p), signal.SIGKILL)
            os.waitpid(int(p), 0)
        except OSError:
            pass


def parts(tier):
    q = tier == 'quick'
    small = ['plain', 'zcat', 'gzip', 'zst']
    return [
        Part('histories', gen(READERS, VARIANTS, ['good'], 2 if q else 3, ENDS), run, batch=8,
             note='all sequences of at most {} steps, then all ways of closing'.format(2 if q else 3)),
        Part('incomplete files', gen(READERS, small, ['cut', 'damaged', 'cut archive', 'other kind', 'empty', 'text', 'big endian'],
                                     1 if q else 2, ENDS), run, batch=8,
             note='files that are refused or end in an error'),
    ]
