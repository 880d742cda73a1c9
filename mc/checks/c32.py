"""C32: structure listing and object table account for every object."""
import json
import os
import re
from collections import Counter

from .. import codec, evio, layouts as L, script, trees
from ..common import fail
from ..engine import Part

TECHNIQUE = 'bounded exhaustive enumeration of object trees and options on the real tools, against the stored trees'
ASSUMPTIONS = ['an object is named by its text form, which is compared with that of the object read from the file; it must hold the class and type',
               'objects of unknown types, which share one class, may be listed one by one or be counted',
               'repeat limits are not negative']

COUNT = re.compile(r'^(\s*)\S.*?\b(\d+)\b.*\bmore\b.*$')


def objects(path):
    """depth first, with the text forms: [(level, str, repr, known)]"""
    from eventio import EventIOFile
    out = []

    def visit(it, level):
        try:
            for o in it:
                out.append((level, str(o), repr(o), type(o).__name__, o.header.type))
                if o.header.only_subobjects:
                    if not visit(o, level + 1):
                        return False
        except EOFError:
            return False
        return True
    with EventIOFile(path) as f:
        visit(f, 0)
    return out


def check_listing(path, objs, have, m, rep, what, ctx):
    """objs: stored tree"""
    argv = [path]
    if m is not None:
        argv += [('-m', '--max-repeats')[m % 2], m]
    if rep:
        argv.append(('-r', '--repr')[(m or 0) % 2])
    m = 5 if m is None else m
    r = script.run('print_structure', *argv)
    ctx.step()
    if r.error is not None:
        fail('{}: {!r}', what, r.error)
    flat = list(trees.flat(objs))
    named = objects(path)
    # the texts belong to the stored objects
    for (o, level), (lv, s, rp, cls, t) in zip(flat, named):
        if lv != level or t != o.type or cls != evio.class_name(o.type) or cls not in s + rp and 'Particles' not in s or \
                str(t) not in rp or not s:
            fail('{}: {} at level {} is named {} / {} at level {}', what, o, level, s, rp, lv)
    need = sum(o.end <= have or o.address <= have and o.sub and o.size == 0 for o, _ in flat)
    complete = have >= max([o.end for o, _ in flat], default=0)
    lines = list(r.lines)
    i = 0                     # objects accounted for
    shown = {}                # indentation by level
    run = None                # class, level and number of objects shown of the current run
    k = 0
    while k < len(lines):
        line = lines[k]
        text = line.lstrip(' ')
        indent = len(line) - len(text)
        if i < len(named) and text == named[i][2 if rep else 1] and \
                shown.setdefault(named[i][0], indent) == indent:
            key = named[i][3], named[i][0]
            if run is None or run[0] != key:
                run = [key, 0]
            run[1] += 1
            if run[1] > m and key[0] != 'EventIOObject':
                fail('{}: more than {} objects {} are listed: {}', what, m, key, lines)
            i += 1
            k += 1
            continue
        c = COUNT.match(line)
        if c and i < len(named):
            n = int(c.group(2))
            key = named[i][3], named[i][0]
            if n < 1 or i + n > len(named):
                fail('{}: {} counts more objects than there are: {}', what, line, lines)
            if any((x[3], x[0]) != key for x in named[i:i + n]):
                fail('{}: {!r} stands for different objects: {}', what, line, lines)
            if i + n < len(named) and (named[i + n][3], named[i + n][0]) == key and key[0] != 'EventIOObject':
                fail('{}: {!r} does not stand for all objects omitted there: {}', what, line, lines)
            if (run[1] if run and run[0] == key else 0) != m:
                fail('{}: {} objects are shown before {!r}: {}', what, run, line, lines)
            if shown.setdefault(key[1], indent) != indent:
                fail('{}: {!r} is not at level {}: {}', what, line, key[1], lines)
            i += n
            k += 1
            run = [key, m]
            continue
        break
    rest = lines[k:]
    if complete:
        if rest:
            fail('{}: line {!r} is not object {}: {}', what, rest[0], named[i:i + 1], lines)
        if i != len(flat):
            fail('{}: {} of {} objects are accounted for: {}', what, i, len(flat), lines)
    else:
        if i < need:
            fail('{}: {} of {} complete objects are accounted for: {}', what, i, need, lines)
        if len(rest) > 1:
            fail('{}: lines that name no object: {}', what, rest)
    levels = sorted(shown)
    if any(shown[a] >= shown[b] for a, b in zip(levels, levels[1:])):
        fail('{}: levels are indented by {}', what, shown)
    ctx.outcome(len(lines), m, len(flat), len(rest))


def table(objs, have=None):
    out = Counter()
    for o, level in trees.flat(objs):
        t = 2200 if o.type in evio.TEL_EVENT else 2100 if o.type in evio.TRACKING else o.type
        out[t, o.version, level, evio.class_name(o.type)] += 1
    return out


def check_table(path, low, high, what, ctx):
    """low <= counts <= high"""
    r = script.run('print_object_information', path, '--json')
    t = script.run('print_object_information', path)
    ctx.step(2)
    for x in (r, t):
        if x.error is not None:
            fail('{}: {!r}', what, x.error)
    got = {}
    for row in json.loads(r.out):
        key = row['type'], row['version'], row['level'], row['name'].split('.')[-1]
        if key in got:
            fail('{}: {} twice in {}', what, key, r.out)
        got[key] = row['number_of_objects']
    text = {}
    for line in t.lines:
        cells = [c.strip() for c in line.split('|')]
        if len(cells) == 5 and cells[0].isdigit():
            key = int(cells[0]), int(cells[1]), int(cells[2]), cells[4].split('.')[-1]
            if key in text:
                fail('{}: {} twice in {}', what, key, t.out)
            text[key] = int(cells[3])
    if got != text:
        fail('{}: table {} is printed as {}', what, got, text)
    for key in set(got) | set(low):
        if not low.get(key, 0) <= got.get(key, 0) <= high.get(key, 0):
            fail('{}: {} is counted {} times instead of {}', what, key, got.get(key, 0), high.get(key, 0))
    if any(v <= 0 for v in got.values()):
        fail('{}: {}', what, got)
    ctx.outcome(len(got), sum(got.values()))


def write(objs, name='tree.dat'):
    with open(name, 'wb') as f:
        f.write(evio.build(objs))
    return name


# ------------------------------------------------------------------ all small trees
def gen_trees(n, leaves, boxes, depth=3):
    def g(c):
        return trees.gen_tree(c, n, leaves, boxes, depth)
    return g


def run_trees(cases, ctx):
    for objs in cases:
        path = write(objs)
        what = str([(o.type, level) for o, level in trees.flat(objs)])
        have = objs[-1].end
        for m in (None, 0, 1, 2, 3):
            for rep in (False, True) if m in (None, 1) else (False,):
                check_listing(path, objs, have, m, rep, '{} -m {} repr={}'.format(what, m, rep), ctx)
        e = table(objs)
        check_table(path, e, e, what, ctx)
        ctx.state(what)


# ------------------------------------------------------------------ runs of the same kind
def gen_runs(lengths, more=()):
    kinds = ['mc event', 'photons', 'unknown', 'tracking', 'tracking far', 'box', 'event', 'event far', *more]

    def g(c):
        out = []
        i = 0
        for _ in range(c.choose('runs', [1, 2, 3], free=True)):
            k = c.choose('kind', kinds, free=True)
            length = c.choose('length', lengths, free=True)
            for _ in range(length):
                i += 1
                if k in trees.LEAVES:
                    out.append(trees.LEAVES[k](i))
                elif k == 'box':
                    out.append(L.box(*[L.photons(0, tel=j) for j in range(i % 3 * 3)], type_=1204))
                elif k == 'deep':
                    out.append(L.box(L.box(L.generic(i)), L.mc_event(i)))
                else:
                    out.append(L.box(L.pixel_list(1), type_=(2200 if k == 'event' else 3200) + i))
        where = c.choose('inside', [0, 1], free=True)
        return [L.box(*out), L.mc_event()] if where else out
    return g


def run_runs(cases, ctx):
    for objs in cases:
        path = write(objs)
        what = str([(o.type, level) for o, level in trees.flat(objs)])
        have = objs[-1].end
        for m in (0, 1, 4, None, 7):
            check_listing(path, objs, have, m, m == 4, '{} -m {}'.format(what, m), ctx)
        e = table(objs)
        check_table(path, e, e, what, ctx)
        ctx.state(what)


def gen_many(c):
    kinds = ['mc event', 'photons', 'unknown', 'tracking', 'sums', 'box']
    one, two = c.choose('first kind', kinds, free=True), c.choose('second kind', kinds, free=True)
    n = c.choose('length', (100, 1000), free=True)
    how = c.choose('arrangement', ('run', 'alternating', 'inside', 'deep'), free=True)

    def make(k, i):
        return trees.LEAVES[k](i) if k in trees.LEAVES else L.box(L.photons(0, tel=i), L.mc_event(i), type_=1204)
    if how == 'deep':
        out = [make(one, 0)]
        for i in range(n // 10):
            out = [make(two, i), L.box(*out, type_=2010, ident=i)]
        return out
    if how == 'alternating':
        return [make((one, two)[i % 2], i) for i in range(n)]
    out = [make(one, i) for i in range(n)] + [make(two, i) for i in range(n)]
    return [L.box(*out), L.mc_event()] if how == 'inside' else out


# ------------------------------------------------------------------ versions, storage, truncation
def gen_versions(c, n=2):
    n = c.choose('objects', n, free=True) + 1
    out = []
    for i in range(n):
        t = c.choose('type', (2021, 2101, 2102, 3105, 60000, 2012), free=True)
        v = c.choose('version', (0, 1, 2, 4095), free=True)
        o = evio.Obj(t, bytes(16), version=v, ident=evio.tracking_id(evio.TRACKING[t]) if t in evio.TRACKING else i)
        out.append(L.box(o) if c.flag('inside', free=True) else o)
    return out


def run_versions(cases, ctx):
    for objs in cases:
        e = table(objs)
        path = write(objs)
        what = str(sorted(e.items()))
        check_table(path, e, e, what, ctx)
        check_listing(path, objs, objs[-1].end, 2, False, what, ctx)
        ctx.state(what)


def gen_types(c):
    """every type number, 100 in one file"""
    first = c.choose('hundred', list(range(0, 12800, 100)) + [65436], free=True)
    box = c.flag('inside', free=True)
    out = []
    for t in range(first, first + 100):
        ident = evio.tracking_id(evio.TRACKING[t]) if t in evio.TRACKING else t
        o = [evio.Obj(t, bytes(16), version=i, ident=ident) for i in range(1 + t % 3)]
        out += [L.box(*o)] if box else o
    return out


FIXED = [
    lambda: [L.mc_event(), L.mc_event(), L.box(L.photons(1), L.photons(2), L.photons(0), type_=1204), L.box(L.box(L.generic(4)), L.tracking(7)),
             L.generic(0), L.generic(3)],
    lambda: [L.box(L.box(L.pixel_list(2), L.pixel_list(1), type_=2201), L.box(L.pixel_list(3), type_=3205), L.tracking(1), L.tracking(105),
                   type_=2010, ext=True), L.generic(9, ext=True), L.input_card(), L.input_card()],
]


def gen_cut(variants):
    def g(c):
        i = c.choose('layout', len(FIXED), free=True)
        objs = FIXED[i]()
        data = evio.build(objs)
        return (i, 4 + c.choose('cut', len(data) - 3, free=True), c.choose('variant', variants, free=True),
                c.choose('repeats', (None, 0, 1, 2), free=True))
    return g


def run_cut(cases, ctx):
    for i, cut, variant, m in cases:
        objs = FIXED[i]()
        data = evio.build(objs)
        kw = evio.store('cut.dat', data[:cut], variant)
        what = 'layout {} cut after {} of {}, {}, -m {}'.format(i, cut, len(data), variant, m)
        check_listing('cut.dat', objs, cut, m, False, what, ctx)
        low = Counter()
        for o, level in trees.flat(objs):
            if o.end <= cut:
                low += Counter({k: 1 for k in relevel(o, level)})
        check_table('cut.dat', low, table(objs), what, ctx)
        ctx.state(i, cut, variant, m)


def relevel(o, level):
    t = 2200 if o.type in evio.TEL_EVENT else 2100 if o.type in evio.TRACKING else o.type
    return [(t, o.version, level, evio.class_name(o.type))]


# ------------------------------------------------------------------ real files
def gen_real(limit):
    def g(c):
        files = codec.resource_files(os.environ['MC_REPO'])
        files = [f for f in files if limit is None or os.path.getsize(f) < limit]
        return (c.choose('file', files, free=True), c.choose('repeats', (None, 0, 1, 20), free=True)) if files else None
    return g


def run_real(cases, ctx):
    for case in cases:
        if not case:
            continue
        path, m = case
        data = codec.content(path)
        objs = codec.complete_objs(data) if data else []
        if not objs or objs[-1].end != len(data):
            continue
        check_listing(path, objs, len(data), m, m == 1, '{} -m {}'.format(path, m), ctx)
        e = table(objs)
        check_table(path, e, e, path, ctx)
        ctx.state(path, m)


def parts(tier):
    q = tier == 'quick'
    n = 5 if q else 6
    return [
        Part('trees', gen_trees(n, ['mc event', 'photons', 'unknown'], ['telescope data', 'unknown box']), run_trees, batch=8,
             note='all trees of at most {} objects over five kinds'.format(n)),
        Part('tree kinds', gen_trees(n - 2, list(trees.LEAVES), list(trees.BOXES)), run_trees, batch=8,
             note='all trees of at most {} objects over all kinds'.format(n - 2)),
        Part('runs', gen_runs([1, 2, 7] if q else [1, 2, 3, 5, 6, 7], () if q else ('unknown 2', 'deep')), run_runs, batch=8, note='up to three runs of up to seven objects of the same kind'),
        Part('many', gen_many, run_runs, note='long runs, long alternations and deep nesting'),
        Part('versions', lambda c: gen_versions(c, 2 if q else 3), run_versions, batch=8),
        Part('types', gen_types, run_versions, batch=1, note='every type number up to 12800'),
        Part('truncated', gen_cut(['plain', 'gzip'] if q else ['plain', 'gzip', 'zst', 'zcat']), run_cut, batch=8, note='every cut position'),
        Part('real files', gen_real(500000 if q else None), run_real, batch=1),
    ]
