"""Independent encoder/decoder of the eventio container format and its number formats.

Nothing in here uses the package under test.
"""
import gzip
import os
import struct
import zlib

import zstandard

SYNC = b'\x37\x8a\x1f\xd4'
SYNC_BE = b'\xd4\x1f\x8a\x37'


# ---------------------------------------------------------------- numbers
def vu(n, length=None):
    """unsigned variable length integer; `length` forces a longer, non-minimal encoding"""
    if length is None:
        length = next(L for L in range(1, 10) if L == 9 or n < 1 << (7 * L))
    if length == 9:
        return b'\xff' + n.to_bytes(8, 'big')
    assert n < 1 << (7 * length)
    b = bytearray(n.to_bytes(length, 'big'))
    b[0] |= (0xff00 >> (length - 1)) & 0xff
    return bytes(b)


def zigzag(n):
    return 2 * n if n >= 0 else -2 * n - 1


def unzigzag(u):
    return -(u >> 1) - 1 if u & 1 else u >> 1


def vs(n, length=None):
    return vu(zigzag(n), length)


def dec_vu(b, pos=0):
    """value, length"""
    first = b[pos]
    n = 0
    while n < 8 and first & (0x80 >> n):
        n += 1
    length = n + 1
    if pos + length > len(b):
        raise EOFError
    value = first & ((0x80 >> n) - 1) if n < 8 else 0
    for x in b[pos + 1:pos + length]:
        value = value << 8 | x
    return value, length


def dec_vs(b, pos=0):
    u, n = dec_vu(b, pos)
    return unzigzag(u), n


def diff(values):
    """signed differences of unsigned 32 bit values, each array starts from 0"""
    out = []
    last = 0
    for v in values:
        d = (v - last) & 0xffffffff
        if d >= 1 << 31:
            d -= 1 << 32
        out.append(vs(d))
        last = v
    return b''.join(out)


def dec_diff(b, pos, n):
    out = []
    val = 0
    start = pos
    for _ in range(n):
        d, k = dec_vs(b, pos)
        pos += k
        val = (val + d) & 0xffffffff
        out.append(val)
    return out, pos - start


# ---------------------------------------------------------------- objects
def head(type_, version=0, ident=0, size=0, user=0, ext=None, sub=0, top=True, type_reserved=0,
         length_reserved=0, ext_reserved=0, sync=SYNC):
    """header bytes; ext=None: extension word only if needed"""
    if ext is None:
        ext = size >= 1 << 30
    w0 = type_ | user << 16 | int(bool(ext)) << 17 | type_reserved << 18 | version << 20
    w2 = (size & (1 << 30) - 1) | sub << 30 | length_reserved << 31
    b = struct.pack('<IiI', w0, ident, w2)
    if ext:
        b += struct.pack('<I', (size >> 30) | ext_reserved << 12)
    return (sync if top else b'') + b


class Obj:
    """A stored object: payload bytes or a list of sub-objects"""
    __slots__ = ('type', 'version', 'id', 'user', 'ext', 'payload', 'children', 'tail',
                 'address', 'size', 'start', 'end', 'level', 'tag')

    def __init__(self, type_, payload=b'', version=0, ident=0, user=0, ext=False, tail=b'', tag=None):
        self.type = type_
        self.version = version
        self.id = ident
        self.user = user
        self.ext = ext
        self.children = None
        self.payload = None
        self.tail = tail          # bytes after the last sub-object (padding)
        self.tag = tag
        if isinstance(payload, (list, tuple)):
            self.children = list(payload)
        else:
            self.payload = bytes(payload)

    @property
    def sub(self):
        return self.children is not None

    def build(self, start=0, top=True):
        """bytes; also fills start, address, size, end"""
        self.start = start
        header_size = 12 + (4 if top else 0) + (4 if self.ext else 0)
        self.address = start + header_size
        if self.children is not None:
            out = []
            pos = self.address
            for c in self.children:
                b = c.build(pos, top=False)
                out.append(b)
                pos += len(b)
            self.payload = b''.join(out) + self.tail
        self.size = len(self.payload)
        self.end = self.address + self.size
        return head(self.type, self.version, self.id, self.size, self.user, self.ext or None,
                    int(self.sub), top) + self.payload

    def walk(self, level=0):
        self.level = level
        yield self
        for c in self.children or ():
            yield from c.walk(level + 1)

    def __repr__(self):
        return 'Obj({}, v{}, id={}, {} bytes{})'.format(
            self.type, self.version, self.id, getattr(self, 'size', '?'),
            ', {} children'.format(len(self.children)) if self.children is not None else '')


def build(objs, start=0):
    out = []
    for o in objs:
        b = o.build(start)
        start += len(b)
        out.append(b)
    return b''.join(out)


def pad4(b):
    return b + bytes(-len(b) % 4)


def read_objs(data, pos=0, end=None, top=True):
    """parse bytes into Obj (reference reader, complete objects only)"""
    end = len(data) if end is None else end
    out = []
    while pos < end:
        start = pos
        if top:
            assert data[pos:pos + 4] == SYNC, 'sync'
            pos += 4
        w0, ident, w2 = struct.unpack_from('<IiI', data, pos)
        pos += 12
        size = w2 & (1 << 30) - 1
        ext = bool(w0 >> 17 & 1)
        if ext:
            size |= (struct.unpack_from('<I', data, pos)[0] & 0xfff) << 30
            pos += 4
        o = Obj(w0 & 0xffff, data[pos:pos + size], version=w0 >> 20, ident=ident, user=w0 >> 16 & 1, ext=ext)
        o.start, o.address, o.size, o.end = start, pos, size, pos + size
        if pos + size > end:
            raise EOFError
        if w2 >> 30 & 1:
            o.children = read_objs(data, pos, pos + size, top=False)
        out.append(o)
        pos += size
    return out


# ---------------------------------------------------------------- storage variants
def gz(data, level=1):
    return gzip.compress(data, level, mtime=0)


def gz_multi(data, cuts):
    pts = [0, *cuts, len(data)]
    return b''.join(gz(data[a:b]) for a, b in zip(pts, pts[1:]))


def zst(data, level=1, size=True):
    return zstandard.ZstdCompressor(level=level, write_content_size=size).compress(data)


def zst_multi(data, cuts):
    pts = [0, *cuts, len(data)]
    return b''.join(zst(data[a:b]) for a, b in zip(pts, pts[1:]))


def cuts_for(data):
    """a few cut positions, at odd places"""
    n = len(data)
    return sorted({min(n, c) for c in (0, 3, n // 3 + 1, n // 2, n - 1) if c >= 0})


VARIANTS = ('plain', 'zcat', 'gzip', 'zst', 'zcat2', 'gzip2', 'zst2')


def store(path, data, variant):
    """write the file, returns the keyword arguments to open it"""
    if variant == 'plain':
        b = data
    elif variant in ('zcat', 'gzip'):
        b = gz(data)
    elif variant in ('zcat2', 'gzip2'):
        b = gz_multi(data, cuts_for(data))
    elif variant == 'zst':
        b = zst(data)
    elif variant == 'zst2':
        b = zst_multi(data, cuts_for(data))
    else:
        raise ValueError(variant)
    with open(path, 'wb') as f:
        f.write(b)
    return {'zcat': variant.startswith('zcat')}


def seekable(variant):
    return variant in ('plain', 'gzip', 'gzip2')


# ---------------------------------------------------------------- known types
CLASSES = {
    70: 'History', 71: 'HistoryCommandLine', 72: 'HistoryConfig', 75: 'HistoryMeta', 100: 'Histograms',
    1200: 'RunHeader', 1201: 'TelescopeDefinition', 1202: 'EventHeader', 1203: 'ArrayOffsets',
    1204: 'TelescopeData', 1205: 'Photons', 1206: 'CameraLayout', 1207: 'TriggerTime',
    1208: 'PhotoElectrons', 1209: 'EventEnd', 1210: 'RunEnd', 1211: 'Longitudinal', 1212: 'InputCard',
    1213: 'TelescopeArrayHead', 1214: 'TelescopeArrayEnd', 1215: 'MCExtraParams', 1216: 'AtmosphericProfile',
    2000: 'RunHeader', 2001: 'MCRunHeader', 2002: 'CameraSettings', 2003: 'CameraOrganization',
    2004: 'PixelSettings', 2005: 'DisabledPixels', 2006: 'CameraSoftwareSettings',
    2007: 'PointingCorrection', 2008: 'DriveSettings', 2009: 'TriggerInformation', 2010: 'ArrayEvent',
    2011: 'TelescopeEventHeader', 2012: 'ADCSums', 2013: 'ADCSamples', 2014: 'ImageParameters',
    2015: 'StereoReconstruction', 2016: 'PixelTiming', 2017: 'PixelCalibration', 2020: 'MCShower',
    2021: 'MCEvent', 2022: 'CameraMonitoring', 2023: 'LaserCalibration', 2024: 'RunStatistics',
    2025: 'MCRunStatistics', 2026: 'MCPhotoelectronSum', 2027: 'PixelList', 2028: 'CalibrationEvent',
    2029: 'AuxiliaryDigitalTraces', 2030: 'AuxiliaryAnalogTraces', 2031: 'FSPhot',
    2032: 'PixelTriggerTimes', 2033: 'PixelMonitoring', 2034: 'CalibrationPhotoelectrons',
}
TEL_EVENT = {2200 + t % 100 + 1000 * (t // 100): t for t in range(1000)}
TRACKING = {2100 + t % 100 + 1000 * (t // 100): t for t in range(1000)}


def class_name(type_):
    if type_ in TEL_EVENT:
        return 'TelescopeEvent'
    if type_ in TRACKING:
        return 'TrackingPosition'
    return CLASSES.get(type_, 'EventIOObject')


def tracking_id(tel, flags=0x300):
    """id field of a tracking position of telescope `tel`"""
    return (tel & 0xff) | ((tel >> 8) & 0x3f) << 24 | flags


# types whose objects read from their payload when they are created
SAFE_GENERIC = 60000
