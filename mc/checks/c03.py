"""C03: nested objects are walked exactly, in any interleaving."""
from .. import big, evio, layouts as L
from ..common import fail, check_header, stored
from ..engine import Part

ASSUMPTIONS = ['the file does not change while it is read']

BOX, BOX2, LEAF = 60002, 70, 60000


# ------------------------------------------------------------------ all trees
def gen_tree(max_nodes, max_depth):
    """a container with all ordered trees below; then a further object"""
    def g(c):
        budget = [max_nodes]

        def children(depth):
            out = []
            while budget[0] > 0:
                kinds = ['end', 'leaf', 'empty leaf']
                if depth < max_depth:
                    kinds += ['box', 'box with extension']
                k = c.choose('child', kinds, free=True)
                if k == 'end':
                    break
                budget[0] -= 1
                n = budget[0]
                if k == 'leaf':
                    out.append(L.generic(5 + n, ident=n))
                elif k == 'empty leaf':
                    out.append(L.generic(0, ident=n, ext=bool(n & 1)))
                else:
                    out.append(evio.Obj(BOX2 if k == 'box' else BOX, children(depth + 1), ident=-n,
                                        ext=k != 'box'))
            return out

        top = evio.Obj(BOX, children(1), ident=77, version=3)
        order = c.choose('order', ['depth first', 'breadth first', 'boxes last'], free=True)
        return [top, L.generic(3)], order
    return g


def stays_ended(o, what):
    for _ in range(2):
        x = next(o, None)
        if x is not None:
            fail('{}: after the end of the container {} is delivered', what, x)


def check_leaf(o, m, what):
    for f in (iter, next):
        try:
            f(o)
        except ValueError:
            pass
        else:
            fail('{}: {}() of an object that is not a container does not raise ValueError', what, f.__name__)


def run_tree(cases, ctx):
    from eventio import EventIOFile
    for k, (tops, order) in enumerate(cases):
        data = evio.build(tops)
        with open('tree.dat', 'wb') as f:
            f.write(data)
        with EventIOFile('tree.dat') as f:
            top = next(f)
            seen = []

            def visit(o, m):
                check_header(o, m, 'tree')
                seen.append((o, m))
                ctx.step()
                if not m.sub:
                    check_leaf(o, m, 'tree')

            def dfs(o, m):
                i = 0
                for s in o:
                    if i >= len(m.children):
                        fail('container delivers more than its {} sub-objects: {}', len(m.children), s)
                    visit(s, m.children[i])
                    if s.header.only_subobjects:
                        dfs(s, m.children[i])
                    i += 1
                if i != len(m.children):
                    fail('container delivers {} of its {} sub-objects', i, len(m.children))
                stays_ended(o, 'depth first')

            visit(top, tops[0])
            if order == 'depth first':
                dfs(top, tops[0])
            else:
                queue = [(top, tops[0])]
                while queue:
                    o, m = queue.pop(0 if order == 'breadth first' else -1)
                    subs = list(o)
                    if len(subs) != len(m.children):
                        fail('container delivers {} of {} sub-objects', len(subs), len(m.children))
                    for s, sm in zip(subs, m.children):
                        visit(s, sm)
                    queue += [(s, sm) for s, sm in zip(subs, m.children) if sm.sub]
                    stays_ended(o, order)
            for o, m in seen:
                o.seek(0)
                if o.read() != m.payload:
                    fail('payload of {} is wrong', m)
            check_header(next(f), tops[1], 'following object')
            if next(f, None) is not None:
                fail('object after the last one')
            ctx.outcome(len(seen), max(m.size for _, m in seen))
            ctx.state(data, order)


# ------------------------------------------------- wide and deep
def gen_wide(scale):
    def g(c):
        shape = c.choose('shape', ('wide', 'deep', 'wide in deep', 'deep in wide'), free=True)
        n = c.choose('size', [50, 200, 2000 * scale if shape == 'wide' else 250], free=True)
        ext = c.flag('extension', free=True)
        leaf = lambda i: L.generic(i % 9, ident=i)

        def chain(m, inner):
            o = inner
            for i in range(m):
                # a container may come first, last or alone
                o = L.box(*([leaf(i)] if i % 3 == 1 else []), *o, *([leaf(i)] if i % 3 == 2 else []), ident=i, ext=ext and i % 2 == 0)
                o = [o]
            return o[0]
        if shape == 'wide':
            t = L.box(*[leaf(i) for i in range(n)], ext=ext)
        elif shape == 'deep':
            t = chain(n, [leaf(3), leaf(4)])
        elif shape == 'wide in deep':
            t = chain(40, [leaf(i) for i in range(n)])
        else:
            t = L.box(*[chain(2 + i % 7, [leaf(i)]) for i in range(n)])
        return [t, L.generic(2)], c.choose('order', ('depth first', 'breadth first', 'last first'), free=True)
    return g


# ------------------------------------------------- all interleavings of walkers
TREES = [
    # three containers next to each other at top level
    lambda: [L.box(L.generic(4), L.generic(0)), L.box(L.photons(1), L.mc_event(), type_=1204),
             L.box(L.generic(6), type_=70)],
    # nested containers
    lambda: [L.box(L.box(L.generic(3), L.generic(1)), L.box(L.generic(2)), L.generic(9))],
    lambda: [L.box(L.box(L.box(L.generic(3)), L.generic(1)), L.generic(7, ext=True)), L.generic(2)],
    lambda: [L.box(L.box(L.generic(3), type_=70), L.mc_event())],
    lambda: [L.box(L.mc_event(), type_=70), L.box(L.photons(1), type_=1204)],
]


def gen_walk(trees, reads):
    def g(c):
        t = c.choose('tree', trees, free=True)
        variant = c.choose('variant', ['plain', 'gzip'], free=True) if reads else 'plain'
        tops = TREES[t]()
        data = evio.build(tops)
        # walkers: None is the file, else the path of a container
        program = []
        left = {(): len(tops)}
        nodes = {(): None}
        delivered = []
        while left:
            walkers = sorted(left)
            w = c.choose('step', walkers, free=True)
            if reads and delivered:
                op = c.choose('read', ['none'] + [(i, what) for i in range(len(delivered)) for what in READS])
                if op != 'none':
                    program.append(('read', delivered[op[0]], op[1]))
            program.append(('next', w))
            kids = tops if w == () else node(tops, w).children
            n = len(kids) - left[w]
            if left[w] == 0:
                del left[w]
                continue
            left[w] -= 1
            delivered.append(w + (n,))
            if kids[n].sub:
                left[w + (n,)] = len(kids[n].children)
        return t, data, tops, variant, program
    return g


READS = ['read()', 'read(2)', 'seek end', 'seek(0)', 'parse']


def node(tops, path):
    o = tops[path[0]]
    for i in path[1:]:
        o = o.children[i]
    return o


def run_walk(cases, ctx):
    from eventio import EventIOFile
    for t, data, tops, variant, program in cases:
        path, kw = stored(data, variant)
        with EventIOFile(path, **kw) as f:
            objs = {(): f}
            count = {}
            for k, step in enumerate(program):
                if step[0] == 'read':
                    o = objs[step[1]]
                    if step[2] == 'read()':
                        o.read()
                    elif step[2] == 'read(2)':
                        o.read(2)
                    elif step[2] == 'seek end':
                        o.seek(0, 2)
                    elif step[2] == 'seek(0)':
                        o.seek(0)
                    else:
                        try:
                            o.parse()
                        except (ValueError, NotImplementedError):
                            pass
                    ctx.step()
                    continue
                w = step[1]
                kids = tops if w == () else node(tops, w).children
                n = count.get(w, 0)
                what = 'tree {} after {}'.format(t, program[:k + 1])
                x = next(objs[w], None)
                ctx.step()
                if x is None:
                    if n != len(kids):
                        fail('{}: ends after {} of {} sub-objects', what, n, len(kids))
                    continue
                if n >= len(kids):
                    fail('{}: more than {} sub-objects: {}', what, len(kids), x)
                check_header(x, kids[n], what)
                objs[w + (n,)] = x
                count[w] = n + 1
                ctx.state(t, tuple(sorted(count.items())))
            for p, o in objs.items():
                if p:
                    o.seek(0)
                    if o.read() != node(tops, p).payload:
                        fail('{}: payload of {} is wrong', program, p)
            ctx.outcome(t, tuple(s[1] for s in program))


# ------------------------------------------------------------- objects of many GiB
SHAPES = ['ab', '(a)b', '(ab)', '((a)b)', '(a(b))', '(a)(b)', '((a))b']


def gen_big(c):
    sizes = {x: c.choose('size ' + x, big.SIZES, free=True) for x in 'ab'}
    shape = c.choose('shape', SHAPES, free=True)
    stack = [[]]
    for i, x in enumerate(shape):
        if x == '(':
            stack.append([])
        elif x == ')':
            kids = stack.pop()
            stack[-1].append(big.Node(BOX, children=kids, ident=i))
        else:
            stack[-1].append(big.Node(LEAF, sizes[x], ident=-i))
    top = big.Node(BOX, children=stack[0] + [big.Node(LEAF, 3)], ident=77)
    return [top, big.Node(LEAF, 4, ident=9)], shape


def run_big(cases, ctx):
    from eventio import EventIOFile
    for nodes, shape in cases:
        big.write('big.dat', nodes)
        sizes = []
        late = []

        def visit(o, m):
            what = 'shape {}, leaves of {} bytes'.format(shape, sizes)
            check_header(o, m, what)
            ctx.step()
            if not m.sub:
                sizes.append(m.size)
                o.seek(m.size - len(m.mark()))
                if o.read(20) != m.mark():
                    fail('{}: wrong payload at the end', what)
                late.append((o, m))
                return
            n = 0
            for s in o:
                if n == len(m.children):
                    fail('{}: more than {} sub-objects', what, n)
                visit(s, m.children[n])
                n += 1
            if n != len(m.children):
                fail('{}: {} of {} sub-objects', what, n, len(m.children))

        with EventIOFile('big.dat') as f:
            for m in nodes:
                o = next(f, None)
                if o is None:
                    fail('shape {}: the file ends early', shape)
                visit(o, m)
            if next(f, None) is not None:
                fail('shape {}: object after the last one', shape)
            for o, m in late:
                o.seek(m.size - len(m.mark()))
                if o.read(20) != m.mark():
                    fail('shape {}: afterwards wrong payload', shape)
        ctx.state(shape, tuple(sizes))
        ctx.outcome(shape, nodes[0].size)
        big.remove('big.dat')


def parts(tier):
    q = tier == 'quick'
    n = 5 if q else 7
    return [
        Part('large', gen_big, run_big, batch=8,
             note='containers of two leaves of up to a TiB (sparse files) in {} shapes'.format(len(SHAPES))),
        Part('wide and deep', gen_wide(1 if q else 5), run_tree, batch=2, note='up to {} sub-objects, nested up to 250 times'.format(2000 if q else 10000)),
        Part('trees', gen_tree(n, 4), run_tree, batch=32,
             note='all ordered trees of at most {} leaves, empty leaves, containers and containers with extension '
                  'word, depth 4, in three orders of walking'.format(n)),
        Part('walkers', gen_walk([0, 1, 2], False), run_walk, batch=32,
             note='all interleavings of the steps of the file and all containers of three trees'),
        Part('walkers with reads', gen_walk([3] if q else [1, 3, 4], True), run_walk, bound=2, batch=32,
             note='as above, with at most 2 reads, seeks or parses of any delivered object in between'),
    ]
