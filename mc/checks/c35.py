"""C35: readers do not influence each other."""
import itertools
import os
import pickle
import sys
import threading

from .. import catalogue, codec, evio, events as E, layouts as L
from ..common import canon, differ, fail, spoil
from ..engine import HarnessError, Part
from . import c26, c27

TECHNIQUE = ('stateless model checking of the real readers: all interleavings of the steps of two readers, and all schedules of two threads '
             'with a bounded number of preemptions at every executed line of the package, under a controlled scheduler')
ASSUMPTIONS = ['a thread switch inside of a single line of the package only happens in functions it calls, where it is explored too',
               'what a reader gives when used alone is determined in a process of its own']


# ------------------------------------------------------------------ what a reader does, step by step
def files():
    """written once per worker"""
    if not os.path.exists('done'):
        evio.store('a.dat', evio.build([L.mc_event(), L.box(L.photons(2), L.generic(5), L.box(L.tracking(7), L.generic(0))), L.input_card(),
                                        L.generic(6, ext=True)]), 'plain')
        evio.store('b.dat', evio.build([L.generic(9), L.box(L.photons(1, tel=4, long=False), ext=True), L.mc_event(55, (7.5, 8.5)), L.pixel_list(4),
                                        L.tracking(105, cor=True)]), 'plain')
        for n in 'ab':
            with open(n + '.dat', 'rb') as f:
                data = f.read()
            with open(n + '.cut', 'wb') as f:
                f.write(data[:60 if n == 'a' else 75])
            for v in ('gzip', 'zst'):
                evio.store(n + '.' + v, data, v)
        from ..engine import Chooser
        for k, name in enumerate(('s.dat', 't.dat')):
            tels = [1, 2] if k == 0 else [2, 105]
            blocks = E.header_part(tels=tels, tag=k)
            a = lambda ident, n: E.array_event(ident, E.trigger_information(ident, tels[:n], tels[:n], ident),
                                               [E.telescope_event(t, ('header', 'sums', 'list'), ident) for t in tels[:n]],
                                               [E.tracking(t, ident) for t in tels])
            blocks += [E.camera_monitoring(t, k) for t in tels] + [E.laser_calibration(t, k) for t in tels]
            blocks += [E.calibration_event(a(1 + k, 2)), E.shower(1 + k), E.particles(k), E.mc_event(100 + k), a(100 + k, 1),
                       E.pixel_monitoring(tels[0], k), E.mc_event(101 + k), a(101 + k, 2), E.histograms()]
            with open(name, 'wb') as f:
                f.write(E.content(blocks))
        for k, name in enumerate(('i.dat', 'j.dat')):
            blocks = E.iact_header(2, k == 0, k) + c26.shower(Chooser(), k, True)
            blocks += [E.event_header(5 + k), E.offsets(2, k)]
            for r in range(2):
                blocks.append(E.telescope_data([E.photons(t, 9 * k + r, k) for t in (0, 3 + k)], r))
            blocks += [E.event_end(5 + k), E.run_end()]
            with open(name, 'wb') as f:
                f.write(E.content(blocks))
        with open('done', 'w'):
            pass


def walk(path, **kw):
    from eventio import EventIOFile
    with EventIOFile(path, **kw) as f:
        for o in f:
            yield canon(header(o)), result(o)
            if o.header.only_subobjects:
                for s in o:
                    yield canon(header(s)), result(s)
                    if s.header.only_subobjects:
                        yield [(canon(header(x)), result(x)) for x in s]


def header(o):
    h = o.header
    return [type(o).__name__, h.type, h.version, h.id, h.user, h.extended, h.only_subobjects, h.content_address, h.content_size, str(o)]


def result(o):
    if o.header.only_subobjects:
        return 'container'
    try:
        return canon(o.parse())
    except NotImplementedError:
        o.seek(0)
        return o.read()


def peeking(path, **kw):
    from eventio import EventIOFile
    with EventIOFile(path, **kw) as f:
        for _ in range(3):
            p = f.peek()
            yield canon(header(p))
            o = next(f)
            yield canon(header(o)), o.read(), f.tell()


def random_access(path, **kw):
    from eventio import EventIOFile
    with EventIOFile(path, **kw) as f:
        kept = list(f)
        yield [canon(header(o)) for o in kept]
        for o in kept[::-1]:
            o.seek(1)
            yield o.read(3), o.tell(), o.read()


def search(path, **kw):
    from eventio import EventIOFile
    from eventio.search_utils import yield_all_objects_depth_first
    with EventIOFile(path, **kw) as f:
        for o, level in yield_all_objects_depth_first(f):
            yield canon(header(o)), level


def simtel(path, **kw):
    from eventio import SimTelFile
    with SimTelFile(path, **kw) as f:
        yield canon([f.history, f.mc_run_headers, f.header, f.global_meta, f.telescope_meta, dict(f.telescope_descriptions)])
        for e in f:
            yield canon(e)
        yield canon(f.histograms)


def iact(path, **kw):
    from eventio import IACTFile
    with IACTFile(path, **kw) as f:
        yield canon([f.header, f.input_card, f.telescope_positions])
        for e in f:
            yield canon(e._asdict())


def kind(i, **kw):
    """one block"""
    from eventio import EventIOFile
    with EventIOFile('kind%d.dat' % i) as f:
        yield result(next(f))


def truncated(path):
    """the block at the end is incomplete"""
    from eventio import EventIOFile
    try:
        with EventIOFile(path) as f:
            for o in f:
                yield canon(header(o)), result(o)
    except EOFError:
        yield 'EOFError'


SCRIPTS = {
    'walk a': lambda: walk('a.dat'), 'walk b': lambda: walk('b.dat'),
    'walk a gzip': lambda: walk('a.gzip', zcat=False), 'walk b zst': lambda: walk('b.zst'),
    'peek a': lambda: peeking('a.dat'), 'peek b': lambda: peeking('b.dat'),
    'random a': lambda: random_access('a.dat'), 'random b': lambda: random_access('b.dat'),
    'search a': lambda: search('a.dat'), 'search b': lambda: search('b.dat'),
    'simtel s': lambda: simtel('s.dat', skip_non_triggered=False), 'simtel t': lambda: simtel('t.dat', skip_calibration=True),
    'simtel t one': lambda: simtel('t.dat', allowed_telescopes=[2]),
    'iact i': lambda: iact('i.dat'), 'iact j': lambda: iact('j.dat'),
    'cut a': lambda: truncated('a.cut'), 'cut b': lambda: truncated('b.cut'),
    'pipe a': lambda: walk('a.gzip', zcat=True), 'pipe b': lambda: peeking('b.gzip', zcat=True),
}


def steps(make):
    """results of all steps, an error is the last one"""
    try:
        for x in make():
            yield x
    except Exception as e:
        yield ('error', type(e).__name__, str(e))


_alone = {}


def alone(name, make):
    """results of a reader in a process of its own"""
    if name not in _alone:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(list(steps(make)), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            raise HarnessError('no result of {}'.format(name))
        _alone[name] = pickle.loads(b)
        if not _alone[name]:
            raise HarnessError('{} does nothing'.format(name))
    return _alone[name]


# ------------------------------------------------------------------ one thread: all interleavings of steps
def gen_steps(names, limit):
    def g(c):
        a = c.choose('first', names, free=True)
        b = c.choose('second', names, free=True)
        return a, b, limit
    return g


def merges(n, m):
    """all interleavings, as sets of positions of the first reader"""
    for p in itertools.combinations(range(n + m), n):
        p = set(p)
        yield [0 if i in p else 1 for i in range(n + m)]


def run_steps(cases, ctx):
    files()
    for name in SCRIPTS:
        alone(name, SCRIPTS[name])
    for a, b, limit in cases:
        expected = alone(a, SCRIPTS[a]), alone(b, SCRIPTS[b])
        # the last steps of longer scripts follow in one go
        n, m = min(limit, len(expected[0])), min(limit, len(expected[1]))
        for order in merges(n, m):
            its = steps(SCRIPTS[a]), steps(SCRIPTS[b])
            done = [0, 0]
            for k in order + [0] * (len(expected[0]) - n) + [1] * (len(expected[1]) - m):
                x = next(its[k], 'the end')
                if x != expected[k][done[k]]:
                    fail('{} and {} in the order {}: step {} of reader {} gives {} instead of {}', a, b, order, done[k], k, x,
                         expected[k][done[k]])
                done[k] += 1
            for k in (0, 1):
                x = next(its[k], None)
                if x is not None:
                    fail('{} and {} in the order {}: reader {} gives {} after its end', a, b, order, k, x)
            ctx.step(len(order))
            ctx.state(a, b, tuple(order))
        ctx.outcome(a, b)


# ------------------------------------------------------------------ one thread: every pair of kinds
_blocks = []


def blocks():
    if not _blocks:
        _blocks.extend(catalogue.all_blocks())
    return _blocks


def gen_pairs(c):
    n = len(blocks())
    return c.choose('first', n, free=True), n


def run_pairs(cases, ctx):
    from eventio import EventIOFile
    for i, n in cases:
        for j, (name, obj, e) in enumerate(blocks()):
            if not os.path.exists('kind%d.dat' % j):
                with open('kind%d.dat' % j, 'wb') as f:
                    f.write(evio.build([obj]))
        name, obj, e = blocks()[i]
        for j, (name2, obj2, e2) in enumerate(blocks()):
            with EventIOFile('kind%d.dat' % i) as f, EventIOFile('kind%d.dat' % j) as g:
                a, b = next(f), next(g)
                r = codec.parse(a)
                s = codec.parse(b)
                check(s, e2, name2, 'after {}'.format(name))
                check(r, e, name, 'after {} was parsed'.format(name2))
                spoil(s)
                check(r, e, name, 'after the result of {} was changed'.format(name2))
                check(codec.parse(a), e, name, 'again after the result of {} was changed'.format(name2))
                with EventIOFile('kind%d.dat' % j) as h:
                    check(codec.parse(next(h)), e2, name2, 'in another reader, after a result was changed')
            ctx.step(5)
        ctx.state(name)
        ctx.outcome(obj.type)


def check(r, e, name, what):
    d = differ(r, e)
    if d:
        fail('{} {}: {}', name, what, d)


# ------------------------------------------------------------------ threads
class Scheduler:
    """runs two functions in threads, switching only where told to"""

    def __init__(self, functions, first, switches):
        self.functions = functions
        self.current = first
        self.switches = list(switches)
        self.left = self.switches.pop(0) if self.switches else None
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.points = [0, 0]
        self.results = [None, None]
        self.switched = 0
        self.free = False           # the controlled part is given up: a thread is blocked

    def point(self, k):
        if self.free or self.current != k:
            return
        self.points[k] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left >= 0:
            return
        self.left = self.switches.pop(0) if self.switches else None
        other = 1 - k
        if self.done[other]:
            return
        self.switched += 1
        self.current = other
        self.go[other].release()
        self.wait(k)

    def wait(self, k):
        if not self.go[k].acquire(timeout=5):
            # the other one waits for something this one holds
            self.free = True

    def trace(self, k):
        prefix = self.prefix

        def local(frame, event, arg):
            if event == 'line':
                self.point(k)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        return tracer

    def body(self, k):
        self.go[k].acquire()
        sys.settrace(self.trace(k))
        try:
            self.results[k] = self.functions[k]()
        except BaseException as e:
            self.results[k] = ('error', repr(e))
        finally:
            sys.settrace(None)
            self.done[k] = True
            if not self.free or self.current == k:
                self.current = 1 - k
            self.go[1 - k].release()

    def run(self):
        import eventio
        self.prefix = os.path.dirname(os.path.abspath(eventio.__file__))
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in (0, 1)]
        for t in threads:
            t.start()
        self.go[self.current].release()
        for t in threads:
            t.join(120)
            if t.is_alive():
                fail('a reader does not come to its end')
        return self.results


def listed(make):
    return lambda: list(steps(make))


def schedules(names, make, first, k1, seconds, expected, what, ctx):
    """all second switches for one first switch; returns the number of points of the first reader"""
    n = 1
    k2 = 0
    while n:
        s = Scheduler([listed(make(x)) for x in names], first, [k1] if seconds is None else [k1, k2])
        got = s.run()
        for k in (0, 1):
            if got[k] != expected[k]:
                bad = next(((x, y) for x, y in itertools.zip_longest(got[k], expected[k]) if x != y), (got[k], expected[k]))
                fail('{}: thread {} first, switches after {} lines: reader {} gives {} instead of {}', what, first,
                     [k1] if seconds is None else [k1, k2], k, *bad)
        ctx.step(sum(s.points))
        ctx.state(what, first, k1, None if seconds is None else k2)
        ctx.outcome(what, s.switched)
        if seconds is None or s.switched < 2:
            # the second reader ended before the second switch
            break
        k2 += seconds


_counts = {}


def lines_of(names, make, first, what):
    key = tuple(names), first
    if key not in _counts:
        s = Scheduler([listed(make(x)) for x in names], first, [])
        s.run()
        _counts[key] = s.points
    return _counts[key][first]


def gen_threads(pairs, slices, stride):
    def g(c):
        names = c.choose('readers', pairs, free=True)
        return names, c.choose('first', (0, 1), free=True), c.choose('slice', slices, free=True), slices, stride
    return g


def make_script(name):
    if isinstance(name, int):
        return lambda: kind(name)
    return SCRIPTS[name]


def run_threads(cases, ctx):
    files()
    for names, first, part, slices, (s1, s2) in cases:
        for j in names:
            if isinstance(j, int) and not os.path.exists('kind%d.dat' % j):
                with open('kind%d.dat' % j, 'wb') as f:
                    f.write(evio.build([blocks()[j][1]]))
        expected = [alone(x, make_script(x)) for x in names]
        what = ' and '.join(blocks()[x][0] if isinstance(x, int) else x for x in names)
        # once without switches: everything is imported and warm afterwards
        n = lines_of(names, make_script, first, what)
        for k1 in range(part * s1, n + 1, slices * s1):
            schedules(names, make_script, first, k1, s2, expected, what, ctx)


def kind_pairs(tier):
    """blocks of the same type in different forms, and neighbours"""
    b = blocks()
    out = []
    for i, (name, obj, e) in enumerate(b):
        same = [j for j in range(len(b)) if b[j][1].type == obj.type and j != i]
        out.append((i, i))
        if same:
            j = min(same, key=lambda j: (j < i, abs(j - i)))
            out.append((i, j))
        if tier != 'quick':
            out += [(i, j) for j in same if (i, j) not in out]
        elif not same:
            out.append((i, (i + 1) % len(b)))
    return out


def parts(tier):
    q = tier == 'quick'
    names = [n for n in SCRIPTS if not n.startswith('pipe')]
    threads = ['walk a', 'walk b', 'peek b', 'random a', 'search b', 'walk a gzip', 'walk b zst', 'cut a']
    pairs = [(a, b) for a in threads for b in threads if a <= b or not q]
    event_pairs = [('simtel s', 'simtel s'), ('simtel s', 'simtel t'), ('simtel t one', 'simtel t'), ('iact i', 'iact i'), ('iact i', 'iact j'),
                   ('simtel s', 'iact i')]
    return [
        Part('steps', gen_steps(names, 5 if q else 7), run_steps, batch=2,
             note='all pairs of {} readers, all interleavings of their first {} steps'.format(len(names), 5 if q else 7)),
        Part('steps with pipes', gen_steps(['pipe a', 'pipe b'], 3 if q else 6), run_steps, batch=1),
        Part('pairs of kinds', gen_pairs, run_pairs, batch=1, note='all pairs of {} forms of blocks'.format(len(blocks()))),
        Part('threads, kinds', gen_threads(kind_pairs(tier), 1, (1, None)), run_threads, batch=1, note='every line, one preemption'),
        Part('threads', gen_threads(pairs, 8, (1, 151 if q else 7)), run_threads, batch=1,
             note='a preemption at every line, and a second one at every {}'.format('151st' if q else 'seventh')),
        Part('threads, events', gen_threads(event_pairs, 8, (7 if q else 1, None)), run_threads, batch=1,
             note='one preemption at every {}line'.format('seventh ' if q else '')),
        Part('threads, pipes', gen_threads([('pipe a', 'pipe b'), ('pipe a', 'pipe a')], 8, (7 if q else 1, None)), run_threads, batch=1),
    ]
