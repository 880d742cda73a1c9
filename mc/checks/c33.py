"""C33: history and metadata listings show exactly what is stored."""
import json
import os
import re
import time

from .. import codec, evio, layouts as L, script
from ..common import fail
from ..engine import Part

TECHNIQUE = 'bounded exhaustive enumeration of arrangements of history and metadata blocks on the real tools, all output forms'
ASSUMPTIONS = ['texts are valid in the chosen encoding and hold no line breaks; surrounding blanks of history entries need not be kept',
               'all metadata blocks follow each other; each telescope has at most one',
               'times are shown in local time']

TIMES = (0, 1, 1000, 1595409473, 2147483647)
TEXTS = ('simtel -C a=1', '', 'x', 'cfg file ä µ', '  indented  ', 'a = b', 'x' * 300)
ITEMS = (
    (),
    (('k', 'v'),),
    (('k', 'v'), ('second', '2')),
    (('second', '2'), ('k', 'v')),
    (('k', 'other'), ('second', '2'), ('third', '')),
    (('name with blanks', ' 1 2 '), ('ä', 'µm'), ('k', 'v = w')),
    tuple(('key%d' % i, str(i)) for i in range(20)),
    tuple(('key%d' % i, str(i if i % 7 else -i)) for i in range(1, 21)),
    (('quote"', '\\n'), ('k', 'true'), ('n', 'null'), ('#', '{}')),
    (('long', 'x' * 200),),
)


def history(lines):
    return L.box(*[L.history_line(t.encode('utf8'), cfg, when) for t, cfg, when in lines], type_=70)


def meta(ident, items, encoding='utf8'):
    return L.meta(ident, [(k.encode(encoding), v.encode(encoding)) for k, v in items])


TAILS = {
    'nothing': lambda: [],
    'event': lambda: [L.mc_event(), L.generic(4)],
    'history again': lambda: [L.input_card(), history([('late', False, 5)])],
    'unknown': lambda: [L.generic(0)],
    'box': lambda: [L.box(L.generic(3))],
}


def local(t):
    return time.strftime('%Y-%m-%dT%H:%M:%S', time.localtime(t))


# ------------------------------------------------------------------ history
def gen_history(n_blocks, n_lines):
    def g(c):
        blocks = []
        for _ in range(c.choose('blocks', n_blocks + 1, free=True)):
            n = c.choose('lines', n_lines + 1, free=True)
            lines = []
            for _ in range(n):
                text = c.choose('text', TEXTS)
                cfg = c.flag('configuration', free=True)
                when = c.choose('time', (1595409473,) + TIMES)
                lines.append((text, cfg, when))
            blocks.append(lines)
        front = c.flag('metadata in front')
        behind = c.flag('metadata behind')
        return blocks, front, behind, c.choose('tail', list(TAILS), free=True), c.choose('storage', ('plain', 'gzip', 'zst')), \
            c.choose('time zone', ('UTC', 'Europe/Berlin', 'America/New_York'))
    return g


def run_history(cases, ctx):
    for blocks, front, behind, tail, variant, tz in cases:
        objs = [history(b) for b in blocks]
        if front:
            objs.insert(0, meta(-1, ITEMS[1]))
        if behind:
            objs += [meta(-1, ITEMS[1]), meta(3, ITEMS[2])]
        objs += TAILS[tail]()
        what = '{} {} {} {} {} {}'.format(blocks, front, behind, tail, variant, tz)
        data = evio.build(objs)
        if not data:
            continue
        evio.store('h.dat', data, variant)
        old = os.environ.get('TZ')
        os.environ['TZ'] = tz
        time.tzset()
        try:
            r = script.run('print_simtel_history', 'h.dat')
            expected = [] if front else [(local(when), text) for lines in blocks for text, cfg, when in lines]
        finally:
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()
        ctx.step()
        if r.error is not None:
            fail('{}: {!r}', what, r.error)
        check_history(r, expected, what)
        ctx.state(what)
        ctx.outcome(len(expected), tail)


def check_history(r, expected, what):
    if len(r.lines) != len(expected):
        fail('{}: {} lines instead of {}: {}', what, len(r.lines), len(expected), r.lines)
    for line, (when, text) in zip(r.lines, expected):
        if not line.startswith(when + ' ') or line[len(when):].strip() != text.strip():
            fail('{}: {!r} instead of {} {!r}', what, line, when, text)


# ------------------------------------------------------------------ metadata
def gen_meta(n_tel):
    def g(c):
        glob = c.choose('global', (1, None) + tuple(range(2, len(ITEMS))) + (0,))
        tels = []
        for _ in range(c.choose('telescopes', n_tel + 1, free=True)):
            ids = [i for i in (1, 2, 5, 105, 0, 999) if i not in [t for t, _ in tels]]
            tels.append((c.choose('telescope', ids), c.choose('items', (2, 4, 3, 5, 6, 7, 8, 9, 1, 0), free=len(tels) < 2)))
        order = c.choose('global is', ('first', 'last'))
        hist = c.choose('histories', (1, 0, 2))
        before = c.choose('before it', ('nothing', 'generic', 'container'))
        return (glob, tels, order, before, hist, c.choose('tail', list(TAILS), free=True), c.choose('storage', ('plain', 'gzip', 'zst')),
                c.choose('encoding', ('utf8', 'latin1', 'utf-16-le')))
    return g


def run_meta(cases, ctx):
    for glob, tels, order, before, hist, tail, variant, encoding in cases:
        what = 'global {} telescopes {} {} after {} {} {} {} {}'.format(glob, tels, order, before, hist, tail, variant, encoding)
        objs = [meta(t, ITEMS[k], encoding) for t, k in tels]
        if glob is not None:
            g = meta(-1, ITEMS[glob], encoding)
            objs = [g] + objs if order == 'first' else objs + [g]
        first = {'nothing': [], 'generic': [L.generic(5)], 'container': [L.box(meta(-1, ITEMS[1], encoding))]}[before]
        objs = first + [history([('a', False, 1), ('b', True, 2)])] * hist + objs + TAILS[tail]()
        data = evio.build(objs)
        if not data:
            continue
        evio.store('m.dat', data, variant)
        argv = ['m.dat']
        if encoding != 'utf8':
            argv += ['--encoding', encoding]
        check_meta(argv, None if glob is None else dict(ITEMS[glob]), {t: dict(ITEMS[k]) for t, k in tels}, what, ctx)
        ctx.state(what)


def check_meta(argv, glob, tels, what, ctx, differences=None):
    # JSON
    r = script.run('print_simtel_metaparams', '--json', *argv)
    ctx.step()
    if r.error is not None:
        fail('{}: JSON: {!r}', what, r.error)
    got = json.loads(r.out)
    if set(got) != {'global', 'telescopes'} or (got['global'] or {}) != (glob or {}):
        fail('{}: JSON global {} instead of {}', what, got.get('global'), glob)
    if got['telescopes'] != {str(t): v for t, v in tels.items()}:
        fail('{}: JSON telescopes {} instead of {}', what, got['telescopes'], tels)
    # text
    r = script.run('print_simtel_metaparams', *argv)
    ctx.step()
    if r.error is not None:
        fail('{}: text: {!r}', what, r.error)
    check_text(r.lines, glob, tels, what)
    # difference of telescopes
    ids = list(tels)
    pairs = [(a, b) for a in ids for b in ids]
    for a, b in pairs if differences is None else pairs[:differences]:
        r = script.run('print_simtel_metaparams', *argv, '--tel-diff', a, b)
        ctx.step()
        if r.error is not None:
            fail('{}: difference of {} and {}: {!r}', what, a, b, r.error)
        check_diff(r.lines, tels[a], tels[b], '{}: difference of {} and {}'.format(what, a, b))
    # a telescope that is not there
    if len(tels) < 3 and 77 not in tels:
        r = script.run('print_simtel_metaparams', *argv, '--tel-diff', 77, (ids + [77])[0])
        ctx.step()
        if r.error is None and ids and tels[ids[0]]:
            fail('{}: difference with a telescope that is not stored: {}', what, r.out)
    ctx.outcome(glob is None, len(tels))


def check_text(lines, glob, tels, what):
    """sections with a title, each with exactly its parameters"""
    sections = []
    k = 0
    while k < len(lines):
        if k + 1 < len(lines) and re.fullmatch('-+', lines[k + 1]):
            sections.append((lines[k], []))
            k += 2
            continue
        if lines[k].strip():
            if not sections:
                fail('{}: {!r} belongs to no section: {}', what, lines[k], lines)
            sections[-1][1].append(lines[k])
        k += 1
    expected = ([('global', glob)] if glob is not None else []) + [(t, v) for t, v in tels.items()]
    sections = [s for s in sections if s[1] or glob is not None or 'lobal' not in s[0]]
    if len(sections) != len(expected):
        fail('{}: sections {} instead of {}', what, [s[0] for s in sections], [e[0] for e in expected])
    for (title, rows), (t, v) in zip(sections, expected):
        if t == 'global':
            if 'lobal' not in title:
                fail('{}: the first section is {!r}', what, title)
        elif re.findall(r'\d+', title) != [str(t)]:
            fail('{}: section {!r} instead of telescope {}', what, title, t)
        want = ['{} = {}'.format(a, b) for a, b in v.items()]
        if rows != [w for w in want if w.strip()]:
            fail('{}: section {!r} lists {} instead of {}', what, title, rows, want)


def check_diff(lines, a, b, what):
    """the difference, applied to the one, gives the other"""
    a = ['{} = {}'.format(k, v) for k, v in a.items()]
    b = ['{} = {}'.format(k, v) for k, v in b.items()]
    if a == b:
        if lines:
            fail('{}: {} although there is none', what, lines)
        return
    body = [x for x in lines if not re.match(r'(---|\+\+\+)\s*$', x) and x]
    pos = 0
    out = []
    for line in body:
        if line.startswith('@@'):
            m = re.match(r'@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@', line)
            if not m:
                fail('{}: {!r}', what, line)
            start = int(m.group(1)) - (m.group(2) != '0')
            if start < pos:
                fail('{}: hunks out of order: {}', what, lines)
            out += a[pos:start]
            pos = start
        elif line[0] in ' -':
            if pos >= len(a) or a[pos] != line[1:]:
                fail('{}: {!r} is not the parameter {}: {}', what, line, a[pos:pos + 1], lines)
            if line[0] == ' ':
                out.append(a[pos])
            pos += 1
        elif line[0] == '+':
            out.append(line[1:])
        else:
            fail('{}: {!r}', what, line)
    out += a[pos:]
    if out != b:
        fail('{}: {} does not lead from {} to {}', what, lines, a, b)
    changed = [x[1:] for x in body if x[0] in '-+']
    if any(x in a and x in b for x in changed) and [x for x in a if x in b] == [x for x in b if x in a]:
        fail('{}: {} marks parameters that are the same', what, lines)


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return c.choose('file', files, free=True) if files else None
    return g


def run_real(cases, ctx):
    import struct
    for path in cases:
        data = codec.content(path) if path else None
        objs = codec.complete_objs(data[:3000000]) if data else []
        if not objs or objs[0].type != 70:
            continue
        expected = []
        for o in objs:
            if o.type != 70:
                break
            for s in o.children:
                when, n = struct.unpack_from('<ih', s.payload)
                expected.append((local(when), s.payload[6:6 + n].decode('utf8')))
        r = script.run('print_simtel_history', path)
        ctx.step()
        if r.error is not None:
            fail('{}: {!r}', path, r.error)
        check_history(r, expected, path)
        metas = [o for o in objs if o.type == 75]
        if metas:
            glob, tels = None, {}
            for o in metas:
                pos = 0
                n, used = evio.dec_vu(o.payload, pos)
                pos += used
                d = {}
                for _ in range(n):
                    kv = []
                    for _ in range(2):
                        m, used = evio.dec_vu(o.payload, pos)
                        pos += used
                        kv.append(o.payload[pos:pos + m].decode('utf8'))
                        pos += m
                    d[kv[0]] = kv[1]
                if o.id == -1:
                    glob = d
                else:
                    tels[o.id] = d
            check_meta([path], glob, tels, path, ctx, 6)
        ctx.state(path)
        ctx.outcome(len(expected), len(metas))


def parts(tier):
    q = tier == 'quick'
    return [
        Part('history', gen_history(2 if q else 3, 2 if q else 3), run_history, bound=2, batch=8,
             note='up to {} blocks of up to {} entries, everything that may follow'.format(*(2, 2) if q else (3, 3))),
        Part('metadata', gen_meta(2 if q else 3), run_meta, bound=1 if q else 2, batch=8, note='all output forms, all pairs of telescopes'),
        Part('real files', gen_real(2000000 if q else None), run_real, batch=1),
    ]
