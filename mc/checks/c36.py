"""C36: the plot tool plots every histogram."""
import os
import struct

import numpy as np

from .. import evio, layouts as L, script
from ..common import fail
from ..engine import Part

TECHNIQUE = ('model checking of the real tool in this process: all contents (which bins are filled) of small histograms and all small files of '
             'histograms are enumerated; saving is replaced by a recorder, so that what each figure shows is compared with the stored numbers')
ASSUMPTIONS = ['the contents of a figure are compared if they are a mesh or bars, whatever else is drawn is accepted',
               'no row or column of contents of different sign sums up to zero, limits of an axis differ']


def number(kind, v):
    return struct.pack('<f' if kind in 'RrFD' else '<i', v)


def histogram(kind, nx, ny, contents, title='title', ident=1, filled=1, lower=-2, upper=6):
    """stored bytes"""
    title = title.encode()
    b = kind.encode() + struct.pack('<h', len(title)) + title
    if len(title) % 2 == 0:
        b += b'\0'
    b += struct.pack('<ihhii', ident, nx, ny, 5, filled)
    for ax in 'xy' if ny > 0 else 'x':
        b += struct.pack('<ii', 1, 2)
        for v in (lower, upper, 3, 4):
            b += number(kind, v)
    if kind in 'FD':
        b += struct.pack('<10f', *range(10))
    if filled > 0:
        b += np.asarray(contents, '<f4' if kind in 'FD' else '<i4').tobytes()
    return b


class Recorder:
    """stands in for writing the figures"""

    def __init__(self, write=False):
        self.figures = []
        self.write = write

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure
        import matplotlib.pyplot as plt
        plt.close('all')
        self.cls = matplotlib.figure.Figure
        self.old = self.cls.savefig
        rec = self

        def savefig(fig, fname, *args, **kwargs):
            rec.figures.append((os.fspath(fname), contents(fig)))
            if rec.write:
                rec.old(fig, fname, *args, **kwargs)
        self.cls.savefig = savefig
        # the arrangement of the axes is slow and changes no contents
        self.tight = self.cls.tight_layout
        if not self.write:
            self.cls.tight_layout = lambda fig, *args, **kwargs: None
        return self

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        self.cls.savefig = self.old
        self.cls.tight_layout = self.tight
        plt.close('all')


def contents(fig):
    out = {'axes': len(fig.axes)}
    if not fig.axes:
        return out
    ax = fig.axes[0]
    out['title'] = ax.get_title()
    out['xlim'] = sorted(ax.get_xlim())
    out['ylim'] = sorted(ax.get_ylim())
    from matplotlib.collections import QuadMesh
    from matplotlib.patches import Rectangle
    for m in ax.collections:
        if isinstance(m, QuadMesh):
            out['mesh'] = np.asarray(m.get_array(), float).ravel()
    bars = [p for p in ax.patches if isinstance(p, Rectangle)]
    if bars:
        out['bars'] = [(p.get_x(), p.get_width(), p.get_height()) for p in bars]
    return out


def check_figure(c, nx, ny, data, title, lower, upper, what):
    if c.get('title') != title:
        fail('{}: title {!r}', what, c.get('title'))
    d = np.asarray(data, float)
    edges = np.linspace(lower, upper, nx + 1)
    if ny > 0:
        d = d.reshape(ny, nx)
        if 'mesh' in c and not np.array_equal(c['mesh'], d.ravel()):
            fail('{}: shows {} instead of {}', what, c['mesh'], d)
        fx, fy = d.any(axis=0), d.any(axis=1)
    else:
        if 'bars' in c:
            got = np.array(c['bars'])
            exp = np.stack([edges[:-1], np.diff(edges), d], 1)
            if got.shape != exp.shape or not np.allclose(got, exp, atol=1e-5):
                fail('{}: shows bars {} instead of {}', what, got.tolist(), exp.tolist())
        fx, fy = d != 0, []
    for name, f, e in (('xlim', fx, edges), ('ylim', fy, np.linspace(lower, upper, ny + 1 if ny > 0 else 2))):
        k = np.flatnonzero(f)
        if len(k) and not (c[name][0] <= e[k[0]] + 1e-6 and c[name][1] >= e[k[-1] + 1] - 1e-6):
            fail('{}: {} {} does not include all filled bins', what, name, c[name])


def run_tool(data, hists, variant, fmt, what, ctx, write=False, complete=True):
    evio.store('h.dat', data, variant)
    argv = ['h.dat', '-o', 'plot'] + ([] if fmt is None else ['-f', fmt])
    with Recorder(write) as rec:
        r = script.run('plot_hists', *argv)
    ctx.step()
    if r.error is not None:
        fail('{}: {!r}', what, r.error)
    if len(rec.figures) != len(hists):
        fail('{}: {} plots of {} histograms', what, len(rec.figures), len(hists))
    names = ['plot_{:03d}.{}'.format(i + 1, fmt or 'pdf') for i in range(len(hists))]
    if [n for n, _ in rec.figures] != names:
        fail('{}: written to {}', what, [n for n, _ in rec.figures])
    for (n, c), (nx, ny, d, title, lower, upper) in zip(rec.figures, hists):
        check_figure(c, nx, ny, d, title, lower, upper, '{} {}'.format(what, n))
    if write:
        for n in names:
            if not os.path.getsize(n):
                fail('{}: {} is empty', what, n)
            os.remove(n)


# ------------------------------------------------------------------ all filled bins
def gen_bins(shapes):
    def g(c):
        nx, ny = c.choose('bins', shapes, free=True)
        n = nx * max(ny, 1)
        m = c.choose('filled bins', 1 << n, free=True)
        kind = c.choose('kind', 'FDIR')
        filled = c.choose('entries', (1, 0, 2147483647)) if not m else 1
        lower, upper = c.choose('limits', ((-2, 6), (0, 1), (-100, -99)))
        sign = c.choose('negative', ('none', 'last', 'first', 'all'))
        # sums of any of them differ from zero
        d = [3 << i if m >> i & 1 else 0 for i in range(n)]
        for i in [i for i in range(n) if d[i]][{'none': slice(0), 'last': slice(-1, None), 'first': slice(1), 'all': slice(None)}[sign]]:
            d[i] = -d[i]
        return nx, ny, d, kind, filled, lower, upper
    return g


def run_bins(cases, ctx):
    for nx, ny, d, kind, filled, lower, upper in cases:
        data = evio.build([evio.Obj(100, struct.pack('<h', 1) + histogram(kind, nx, ny, d, 'a title', 5, filled, lower, upper), version=1)])
        what = '{} x {} bins, {} {}, {} entries, from {} to {}'.format(nx, ny, kind, d, filled, lower, upper)
        run_tool(data, [(nx, ny, d, 'a title', lower, upper)], 'plain', None, what, ctx)
        ctx.state(what)
        ctx.outcome(nx, ny, any(d))


# ------------------------------------------------------------------ all files
FORMS = (('F', 2, 0, (1, 2), 1), ('I', 3, 0, (0, 5, 0), 1), ('D', 2, 2, (0, 0, 3, 0), 1), ('R', 2, 0, (0, 0), 0), ('F', 1, 2, (0, 0), 1))


def gen_files(depth, number):
    def g(c):
        blocks = []
        for _ in range(c.choose('blocks', depth + 1, free=True)):
            b = []
            for _ in range(c.choose('histograms', number + 1, free=True)):
                b.append(c.choose('form', len(FORMS), free=not b if len(blocks) < 2 else False))
            blocks.append(b)
        return (blocks, c.flag('other blocks'), c.choose('titles', ('plain', 'none', 'unicode')), c.choose('stored', evio.VARIANTS),
                c.choose('format', (None, 'png', 'svg')), c.choose('ids', ('counted', 'same', 'from the end')))
    return g


def run_files(cases, ctx):
    for blocks, other, titles, variant, fmt, ids in cases:
        objs, hists = [], []
        for b in blocks:
            p = struct.pack('<h', len(b))
            for i in b:
                kind, nx, ny, d, filled = FORMS[i]
                title = {'plain': 'number {}'.format(len(hists)), 'none': '', 'unicode': 'Größe {}'.format(len(hists))}[titles]
                p += histogram(kind, nx, ny, d, title, {'counted': len(hists), 'same': 7}.get(ids, 9 - len(hists)), filled)
                hists.append((nx, ny, d, title, -2, 6))
            if other:
                objs.append(L.generic(5))
            objs.append(evio.Obj(100, p, version=1 + len(objs) % 2))
        if other:
            objs.append(L.box(L.generic(3)))
        if not objs:
            continue
        what = 'histograms {} other {} {} {} {} ids {}'.format(blocks, other, titles, variant, fmt, ids)
        run_tool(evio.build(objs), hists, variant, fmt, what, ctx)
        ctx.state(what)
        ctx.outcome(len(hists))


def gen_written(c):
    return c.choose('form', len(FORMS), free=True), c.choose('format', ('png', 'svg', 'pdf'), free=True)


def run_written(cases, ctx):
    for i, fmt in cases:
        kind, nx, ny, d, filled = FORMS[i]
        data = evio.build([evio.Obj(100, struct.pack('<h', 1) + histogram(kind, nx, ny, d, 't', 1, filled), version=2)])
        run_tool(data, [(nx, ny, d, 't', -2, 6)], 'plain', fmt, 'written {} {}'.format(FORMS[i], fmt), ctx, True)
        ctx.state(i, fmt)
        ctx.outcome(fmt)


def parts(tier):
    q = tier == 'quick'
    shapes = [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(4, 0)] if q else [(4, 0), (5, 0), (6, 0), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)])
    return [
        Part('bins', gen_bins(shapes), run_bins, bound=1 if q else 2, batch=4, note='every set of filled bins of {} shapes'.format(len(shapes))),
        Part('files', gen_files(2 if q else 3, 2), run_files, bound=1 if q else 2, batch=4, note='all sequences of up to {} blocks'.format(2 if q else 3)),
        Part('written', gen_written, run_written, batch=1, note='figures are really written'),
    ]
