"""C38: files are recognised by their content under every name, and only read."""
import hashlib
import os
import pathlib
import shutil
import stat

from .. import evio, events as E, layouts as L, script
from ..common import canon, caught, fail
from ..engine import Part
from . import c26, c27, c37

TECHNIQUE = ('exhaustive enumeration of names x ways to write the path x storage x readers and tools on the real code, compared with the same '
             'content under a plain name; the whole directory is compared before and after')
ASSUMPTIONS = ['paths are text or pathlib objects; a name that starts with a dash is given to a tool with its directory',
               'access times are not claimed']

NAMES = ['x', 'x.gz', 'x.zst', 'x.simtel.gz', 'x.bz2', 'x.GZ', '-', '-c', '--help', '--', '-rf', 'a b', ' x ', 'a\nb', 'gr\u00fc\u00df.zst', '"q\'', '*.gz', '[x]?',
         '$(touch y)', ';touch y', '|touch y', '&', '%s{0}{a}', '.h', 'n' * 200, 'C:\\x', 'file:x', '~', '1', '\udcff.gz', 'dir.gz/x', 'dir/-', '.gz', 'x.dat.Z', 'None']
PATHS = ('name', 'absolute', 'Path', 'absolute Path', 'dotted', 'link', 'Path link')
TOOLS = ('print_structure', 'print_object_information', 'print_simtel_history', 'print_simtel_metaparams', 'cut_eventio_file')

_contents = {}


def content(kind):
    if not _contents:
        _contents['objects'] = evio.build(c37.file_objects(0) + c37.file_objects(2))
        _contents['iact'] = E.content(c37.event_file('iact')[0])
        _contents['simtel'] = E.content(c37.event_file('simtel')[0])
    return _contents[kind]


def decoys(name, kind):
    """other files that a careless look-up might find"""
    other = evio.build([L.generic(3), L.mc_event(999)])
    for n in {name + '.gz', name + '.zst', os.path.splitext(name)[0]} - {name, ''}:
        if len(os.path.basename(n)) < 250 and not os.path.lexists(n) and os.path.basename(n):
            evio.store(n, other, 'gzip' if n.endswith('.gz') else 'zst' if n.endswith('.zst') else 'plain')


def state(top):
    out = {}
    for root, dirs, names in os.walk(top):
        for n in dirs + names:
            p = os.path.join(root, n)
            s = os.lstat(p)
            if stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    h = hashlib.blake2b(f.read()).hexdigest()
            else:
                h = os.readlink(p) if stat.S_ISLNK(s.st_mode) else None
            out[p] = s.st_mode, s.st_size, s.st_mtime_ns if not stat.S_ISDIR(s.st_mode) else 0, s.st_ino, h
    return out


def use(reader, path, kw):
    """everything a reader or tool gives"""
    from eventio import EventIOFile, SimTelFile, IACTFile
    if reader in TOOLS:
        more = ['cut.out', '2k'] if reader == 'cut_eventio_file' else []
        if reader == 'print_simtel_metaparams':
            more = ['--json'] if kw.get('zcat') else []
        r = script.run(reader, path, *more)
        out = [r.out, type(r.error).__name__]
        if reader == 'cut_eventio_file' and os.path.exists('cut.out'):
            with open('cut.out', 'rb') as f:
                out.append(f.read())
            os.remove('cut.out')
        return out
    with caught():
        if reader == 'objects':
            with EventIOFile(path, **kw) as f:
                rows, error = c37.walk(f, 10000)
            return canon(rows), type(error).__name__
        if reader == 'iact':
            with IACTFile(path, **kw) as f:
                return canon([c26.as_dict(e) for e in f])
        with SimTelFile(path, skip_non_triggered=False, **kw) as f:
            return canon(list(f)), canon(f.header), canon(f.history)


def gen(readers):
    def g(c):
        reader = c.choose('reader', readers, free=True)
        return (reader, c.choose('name', NAMES, free=True), c.choose('stored', ('plain', 'gzip', 'zcat', 'zst'), free=True),
                c.choose('path', PATHS, free=reader == 'objects'), c.flag('decoys', free=True))
    return g


_reference = {}


def run(cases, ctx):
    for reader, name, variant, how, others in cases:
        kind = reader if reader in ('objects', 'iact', 'simtel') else 'simtel'
        home = os.getcwd()
        key = reader, variant
        if key not in _reference:
            kw = evio.store('plain.dat', content(kind), variant)
            _reference[key] = use(reader, 'plain.dat', kw)
            os.remove('plain.dat')
        what = '{} of {!r} ({}), path as {}{}'.format(reader, name, variant, how, ', other files there' if others else '')
        top = os.path.join(home, 'names')
        shutil.rmtree(top, ignore_errors=True)
        os.mkdir(top)
        os.chdir(top)
        try:
            if os.path.dirname(name):
                os.mkdir(os.path.dirname(name))
            path = name
            if 'link' in how:
                os.mkdir('elsewhere')
                kw = evio.store('elsewhere/file.dat', content(kind), variant)
                os.symlink(os.path.join('..' if os.path.dirname(name) else '.', 'elsewhere/file.dat'), name)
            else:
                kw = evio.store(name, content(kind), variant)
            if others:
                decoys(name, kind)
            if 'absolute' in how:
                path = os.path.abspath(path)
            elif how == 'dotted' or reader in TOOLS and name.startswith('-'):
                path = './' + path
            if 'Path' in how and reader not in TOOLS:
                path = pathlib.Path(path)
            before = state(top)
            got = use(reader, path, kw)
            after = state(top)
            ctx.step()
            if got != _reference[key]:
                fail('{}: {:.400} instead of {:.400}', what, repr(got), repr(_reference[key]))
            if after != before:
                fail('{}: changes files: {}', what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
            ctx.state(what)
            ctx.outcome(reader, variant)
        finally:
            os.chdir(home)
            shutil.rmtree(top, ignore_errors=True)


def parts(tier):
    return [
        Part('objects', gen(('objects',)), run, bound=1, batch=16, note='every name, path form, storage and surrounding'),
        Part('events', gen(('iact', 'simtel')), run, bound=1, batch=8, note='event readers'),
        Part('tools', gen(TOOLS), run, bound=1, batch=8, note='command line tools'),
    ]
