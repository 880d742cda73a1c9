from ..codec import gen_spec, make_run, gen_resources, make_run_resources
from ..engine import Part

ASSUMPTIONS = [
    'the reference layouts in mc/specs.py describe what the simulation programs store; they are validated by decoding '
    'the blocks of the resource files of the repository',
    'fields outside the explored alphabets behave like the explored ones (all bit patterns of single numbers are C13 and C11)',
]


BOUND1 = {'quick': 1, 'thorough': 2}


def codec_parts(specs, tier, bound=None, batch=64, parse=None):
    q = tier == 'quick'
    out = []
    kw = {'parse': parse} if parse else {}
    for name in sorted(specs):
        b = 2 if q else 3
        if bound:
            b = bound.get(name, {}).get(tier, b)
        v = 1 if q else 2
        out.append(Part(name, gen_spec({name: specs[name]}, v), make_run(**kw), bound=b, batch=batch,
                        note='all versions, flags and main counts; at most {} other counts, values or texts differ from '
                             'the default, at most {} of them plain values'.format(b, v)))
    out.append(Part('large counts', gen_spec(specs, 0, 1 if q else 2), make_run(**kw), bound=1, batch=4,
                    note='all versions and flags, one large count, up to 70000 (thorough 140000)'))
    out.append(Part('resource files', gen_resources(specs), make_run_resources(specs, **kw), batch=1,
                    note='blocks of the resource files, decoded by the reference layouts and by the implementation'))
    return out
