"""One block of every kind in every version, with the expected parse result."""
from . import codec, specs
from .engine import Chooser

TABLES = ('C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25')


class Named(Chooser):
    """default answers, except for the given names"""

    def __init__(self, answers):
        super().__init__()
        self.answers = answers

    def choose(self, name, options, free=False):
        n = options if isinstance(options, int) else len(options)
        k = min(self.answers.get(name, 0), n - 1)
        self.trace.append((name, n, free, k))
        return k if isinstance(options, int) else options[k]


def all_blocks(versions=True):
    """[(name, Obj, expected)]"""
    out = []
    for table in TABLES:
        for name, (type_, spec) in getattr(specs, table).items():
            n = 1
            c = Named({})
            codec.write(c, type_, spec)
            if versions:
                n = max([t[1] for t in c.trace if t[0] == 'version'] or [1])
            more = {2012: [{'zero suppression': 1, 'stored pixels': 5}, {'zero suppression': 2, 'stored pixels': 7, 'kinds': 3}],
                    2013: [{'zero suppression': 1, 'stored pixels': 5}],
                    1205: [{'emitters': 1}],
                    1208: [{'flags': 3, 'photons': 2}],
                    2016: [{'stored pixels': 3, 'list type': 1}, {'stored pixels': 3}]}.get(type_, [])
            for v in range(n):
                for extra in [{}] + more:
                    obj, e = codec.write(Named(dict(extra, version=v)), type_, spec)
                    if isinstance(e, codec.Raises):
                        continue
                    out.append(('{} v{}{}'.format(name, obj.version, extra or ''), obj, e))
    return out


def one(name, **answers):
    """block of a kind, e.g. one('photon bunches')"""
    for table in TABLES:
        t = getattr(specs, table)
        if name in t:
            type_, spec = t[name]
            obj, e = codec.write(Named(answers), type_, spec)
            return obj, e
    raise KeyError(name)
