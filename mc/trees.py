"""All small object trees over some kinds of objects."""
from . import evio, layouts as L

LEAVES = {
    'mc event': lambda i: L.mc_event(ident=i),
    'photons': lambda i: L.photons(i % 3, tel=i % 7),
    'pixel list': lambda i: L.pixel_list(i % 4, tel=i % 5),
    'tracking': lambda i: L.tracking(1 + i % 200),
    'tracking far': lambda i: L.tracking(105 + i, cor=True),
    'unknown': lambda i: L.generic(3 + i % 5, ident=i),
    'unknown 2': lambda i: L.generic(i % 3, type_=60001, ident=i),
    'empty': lambda i: L.generic(0, type_=1213, ident=i),
    'card': lambda i: L.input_card(b'card %d' % i),
    'long': lambda i: L.generic(2 + i, ident=i, ext=True),
    'sums': lambda i: evio.Obj(2012, bytes(8), version=3, ident=i << 12),
}
BOXES = {
    'telescope data': lambda ch, i: L.box(*ch, type_=1204, ident=i),
    'array event': lambda ch, i: L.box(*ch, type_=2010, ident=i),
    'telescope event': lambda ch, i: L.box(*ch, type_=2200 + i % 100, ident=i),
    'telescope event far': lambda ch, i: L.box(*ch, type_=3200 + i % 100, ident=i),
    'unknown box': lambda ch, i: L.box(*ch, ident=i),
    'history': lambda ch, i: L.box(*ch, type_=70, ident=i),
}


def gen_tree(c, n, leaves, boxes, depth=3, free=True, at_least=1):
    """an ordered forest of at most n objects; every node is distinct"""
    count = [0]

    def objects(level, first):
        out = []
        while count[0] < n:
            options = ['end'] if not first or count[0] >= at_least or level else []
            options += list(leaves) + (list(boxes) if level < depth else [])
            k = c.choose('object', options, free=free)
            if k == 'end':
                break
            first = False
            count[0] += 1
            i = count[0]
            if k in LEAVES:
                out.append(LEAVES[k](i))
            else:
                out.append(BOXES[k](objects(level + 1, True), i))
        return out
    return objects(0, True)


def flat(objs, level=0):
    """[(object, level)] depth first"""
    for o in objs:
        yield o, level
        if o.sub:
            yield from flat(o.children, level + 1)
