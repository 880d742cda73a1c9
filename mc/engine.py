"""Stateless exhaustive exploration of bounded choice trees.

A *part* of a check is a pair of functions

    gen(c)            -> case      builds one case by calling c.choose(...)
    run(cases, ctx)                executes the cases on the real code and compares
                                   every step with the reference model

`gen` makes every choice through the Chooser.  The explorer enumerates all
choice sequences whose number of *deviations* (non-default answers at points that
are not free) is at most the bound of the part; at free points all answers are
explored.  Nothing is sampled.

The tree is split statically between a fixed number of worker processes, so a run
is deterministic and any violation can be replayed from the list of choices.
"""
import json
import mmap
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

N_WORKERS = 8
EXPAND = 400           # nodes of the choice tree expanded before it is split
CASE_TIMEOUT = 240     # seconds for one batch


class Violation(Exception):
    """The subject does not do what the model says."""


class HarnessError(Exception):
    """The harness misbehaves, this is never a statement about the subject."""


class Chooser:
    __slots__ = ('prefix', 'names', 'trace', 'idx')

    def __init__(self, prefix=(), names=None):
        self.prefix = prefix
        self.names = names
        self.trace = []      # (name, n, free, chosen)

    def choose(self, name, options, free=False):
        n = options if isinstance(options, int) else len(options)
        i = len(self.trace)
        if n < 1:
            raise HarnessError('no options at {}'.format(name))
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n or (self.names is not None and i < len(self.names) and self.names[i] != (name, n)):
                raise HarnessError('diverged while replaying at {} {}: {}'.format(i, name, self.prefix))
        else:
            k = 0
        self.trace.append((name, n, free, k))
        return k if isinstance(options, int) else options[k]

    def flag(self, name, free=False):
        return bool(self.choose(name, 2, free))

    def describe(self):
        return [[name, k, n] for name, n, free, k in self.trace]


class Part:
    def __init__(self, name, gen, run, bound=0, batch=1, note=''):
        self.name = name
        self.gen = gen
        self.run = run
        self.bound = bound
        self.batch = batch
        self.note = note


class Ctx:
    """Passed to run: counts what was covered."""

    def __init__(self):
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.work = None

    def step(self, n=1):
        self.steps += n

    def state(self, *key):
        if len(self.states) < 2000000:
            self.states.add(hash(key))

    def outcome(self, *key):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash(key))


def _children(trace, start, bound):
    """prefixes that deviate from trace at or after start, in order"""
    cost = 0
    out = []
    for i, (name, n, free, k) in enumerate(trace):
        if i >= start and n > 1:
            c = cost + (0 if free else 1)
            if c <= bound:
                head = tuple(t[3] for t in trace[:i])
                names = tuple((t[0], t[1]) for t in trace[:i + 1])
                for alt in range(1, n):
                    out.append((head + (alt,), names))
        if k and not free:
            cost += 1
    return out


def leaves(part, worker=None, n_workers=1):
    """yield (number, prefix, chooser, case) of all executions of a worker"""
    number = 0
    # expand breadth first until there is enough to share; every worker does the same
    queue = [((), None)]
    qi = 0
    count = 0
    while qi < len(queue) and count < EXPAND:
        prefix, names = queue[qi]
        qi += 1
        c = Chooser(prefix, names)
        case = part.gen(c)
        queue.extend(_children(c.trace, len(prefix), part.bound))
        if worker is None or count % n_workers == worker:
            yield prefix, c, case
        count += 1
    rest = queue[qi:]
    mine = rest if worker is None else rest[worker::n_workers]
    stack = list(reversed(mine))
    del queue, rest, mine
    while stack:
        prefix, names = stack.pop()
        c = Chooser(prefix, names)
        case = part.gen(c)
        kids = _children(c.trace, len(prefix), part.bound)
        kids.reverse()
        stack.extend(kids)
        yield prefix, c, case


class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0
        self.steps = 0
        self.choices = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.max_len = 0


class _Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Timeout()


def _short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def run_batch(part, cases, ctx):
    """returns None or a message"""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        part.run(cases, ctx)
        return None
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except _Timeout:
        return 'no result within {} s:\n{}'.format(CASE_TIMEOUT, traceback.format_exc(limit=-6))
    except MemoryError:
        return 'out of memory:\n' + traceback.format_exc(limit=-6)
    except Exception:
        return 'unexpected exception:\n' + traceback.format_exc(limit=-8)
    finally:
        signal.alarm(0)


def _worker(part, worker, n_workers, fd, shm, work):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import logging
    logging.disable(logging.WARNING)
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    st = Stats()
    ctx = Ctx()
    ctx.work = work
    batch = []
    n_batch = 0
    result = {'violation': None}

    def flush():
        nonlocal n_batch
        prefixes = [p for p, c, case in batch]
        data = pickle.dumps((n_batch, prefixes))
        if len(data) + 8 <= len(shm):
            shm[8:8 + len(data)] = data
            shm[:8] = len(data).to_bytes(8, 'little')
        message = run_batch(part, [case for p, c, case in batch], ctx)
        if message is not None:
            result['violation'] = {
                'prefixes': prefixes, 'message': message, 'batch_number': n_batch,
                'choices': [c.describe() for p, c, case in batch][:8],
            }
        n_batch += 1
        batch.clear()

    for prefix, c, case in leaves(part, worker, n_workers):
        st.executions += 1
        st.choices += len(c.trace)
        st.nodes += len(c.trace) - len(prefix) + 1
        st.max_len = max(st.max_len, len(c.trace))
        if len(st.samples) < 1 and st.executions >= 3:
            st.samples.append([t[0] + '=' + str(t[3]) for t in c.trace][:60])
        batch.append((prefix, c, case))
        if len(batch) >= part.batch:
            flush()
            if result['violation']:
                break
    if batch and not result['violation']:
        flush()
    st.steps = ctx.steps
    st.states = ctx.states
    st.outcomes = ctx.outcomes
    result['stats'] = st
    os.write(fd, b'') if False else None
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(result, f)


def run_part(part, work, n_workers=N_WORKERS):
    """returns (stats, violation or None)"""
    jobs = {}
    for w in range(n_workers):
        shm = mmap.mmap(-1, 4 << 20)
        r, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.close(r)
                for other in jobs.values():
                    os.close(other['r'])
                _worker(part, w, n_workers, wfd, shm, os.path.join(work, 'w%d' % w))
                rc = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        os.close(wfd)
        jobs[pid] = {'r': r, 'w': w, 'shm': shm, 'data': b''}

    pending = {j['r']: j for j in jobs.values()}
    while pending:
        for r in select.select(list(pending), [], [])[0]:
            b = os.read(r, 1 << 20)
            if b:
                pending[r]['data'] += b
            else:
                del pending[r]
                os.close(r)

    total = Stats()
    violations = []
    harness = None
    for pid, j in jobs.items():
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status) or (os.WIFEXITED(status) and os.WEXITSTATUS(status) not in (0, 3)):
            n = int.from_bytes(j['shm'][:8], 'little')
            if not n:
                harness = 'worker died before its first case, status {}'.format(status)
                continue
            number, prefixes = pickle.loads(j['shm'][8:8 + n])
            violations.append({
                'worker': j['w'], 'prefixes': prefixes, 'batch_number': number,
                'message': 'the process died: {}'.format(
                    'signal %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status)
                    else 'exit status %d' % os.WEXITSTATUS(status)),
                'choices': [],
            })
            continue
        if os.WEXITSTATUS(status) == 3 or not j['data']:
            harness = 'error in worker {}'.format(j['w'])
            continue
        res = pickle.loads(j['data'])
        st = res['stats']
        total.executions += st.executions
        total.nodes += st.nodes
        total.steps += st.steps
        total.choices += st.choices
        total.states |= st.states
        total.outcomes |= st.outcomes
        total.samples += st.samples
        total.max_len = max(total.max_len, st.max_len)
        if res['violation']:
            res['violation']['worker'] = j['w']
            violations.append(res['violation'])
    if harness and not violations:
        raise HarnessError(harness)
    violations.sort(key=lambda v: (v['batch_number'], v['worker']))
    for v in violations:
        v['part'] = part.name
        v['n_workers'] = n_workers
    return total, violations


def replay_batch(part, prefixes, work, names=None):
    """run one batch in a child process; returns a message or None"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(r)
            os.makedirs(work, exist_ok=True)
            os.chdir(work)
            ctx = Ctx()
            ctx.work = work
            cases = []
            for p in prefixes:
                cases.append(part.gen(Chooser(tuple(p))))
            message = run_batch(part, cases, ctx)
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(message, f)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(rc)
    os.close(wfd)
    data = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'the process died: signal {}'.format(os.WTERMSIG(status))
    if not data:
        raise HarnessError('replay failed')
    return pickle.loads(data)


def replay_history(part, worker, n_workers, upto, work):
    """run all batches of a worker up to number `upto`, for violations that need the history"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(r)
            os.makedirs(work, exist_ok=True)
            os.chdir(work)
            ctx = Ctx()
            ctx.work = work
            batch, n, message = [], 0, None
            for prefix, c, case in leaves(part, worker, n_workers):
                batch.append(case)
                if len(batch) >= part.batch:
                    message = run_batch(part, batch, ctx)
                    batch = []
                    n += 1
                    if message or n > upto:
                        break
            if batch and not message:
                message = run_batch(part, batch, ctx)
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(message, f)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(rc)
    os.close(wfd)
    data = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'the process died: signal {}'.format(os.WTERMSIG(status))
    if not data:
        raise HarnessError('replay failed')
    return pickle.loads(data)
