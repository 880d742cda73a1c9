"""Small files used by the container level checks."""
import struct

from .evio import Obj, vs, vu


def photons(n=1, array=0, tel=1, long=True):
    b = struct.pack('<hhfi', array, tel, 1.5 * n, n)
    for i in range(n):
        if long:
            b += struct.pack('<8f', *[i * 8 + k + 0.5 for k in range(8)])
        else:
            b += struct.pack('<8h', *[i * 8 + k + 1 for k in range(8)])
    return Obj(1205, b, version=0 if long else 1000, ident=array * 1000 + tel)


def mc_event(ident=100, core=(1.5, -2.5)):
    return Obj(2021, struct.pack('<iff', 7, *core), version=1, ident=ident)


def input_card(text=b'hello'):
    return Obj(1212, struct.pack('<ih', 1, len(text)) + text + bytes(-(6 + len(text)) % 4))


def history_line(text=b'cmd', cfg=False, t=1000):
    return Obj(72 if cfg else 71, struct.pack('<ih', t, len(text)) + text + bytes(-(6 + len(text)) % 4), version=1)


def meta(ident=-1, items=((b'k', b'vv'),)):
    b = vu(len(items)) + b''.join(vu(len(k)) + k + vu(len(v)) + v for k, v in items)
    return Obj(75, b + bytes(-len(b) % 4), ident=ident)


def generic(n=8, type_=60000, ident=5, **kw):
    return Obj(type_, bytes((17 * i + n + type_) & 0xff for i in range(n)), ident=ident, **kw)


def box(*children, type_=60002, ident=9, **kw):
    return Obj(type_, list(children), ident=ident, **kw)


def tracking(tel=1, raw=True, cor=False):
    vals = []
    if raw:
        vals += [1.25, 0.5]
    if cor:
        vals += [-1.25, 2.5]
    return Obj(2100 + tel % 100 + 1000 * (tel // 100), struct.pack('<%df' % len(vals), *vals),
               ident=(tel & 0xff) | ((tel >> 8) & 0x3f) << 24 | 0x100 * raw | 0x200 * cor)


def telescopes(n=2):
    return Obj(1201, struct.pack('<i', n) + struct.pack('<%df' % (4 * n), *[k + 0.5 for k in range(4 * n)]))


def pixel_list(n=3, tel=1, code=0):
    b = vs(n) + b''.join(vs(10 + k) for k in range(n))
    return Obj(2027, b + bytes(-len(b) % 4), version=1, ident=code * 1000000 + tel)


def aux_digital(tel=1, ident=1):
    from .evio import diff
    b = struct.pack('<if', tel, 0.25) + vu(2) + vu(3) + diff([5, 6, 4]) + diff([70000, 1, 2])
    return Obj(2029, b + bytes(-len(b) % 4), ident=ident)
