"""small writer of eventio files, for the demonstration beside it"""
import gzip, os, shutil, struct, sys, tempfile, warnings
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
warnings.simplefilter('ignore')


def vu(n):
    for L in range(1, 9):
        if n < 1 << 7 * L:
            b = bytearray(n.to_bytes(L, 'big'))
            b[0] |= (0xff00 >> (L - 1)) & 0xff
            return bytes(b)
    return b'\xff' + n.to_bytes(8, 'big')


def vs(n):
    return vu(2 * n if n >= 0 else -2 * n - 1)


def obj(type_, payload=b'', version=0, ident=0, user=0, top=True, ext=None):
    """payload: bytes, or a list of sub-objects made with top=False"""
    sub = isinstance(payload, list)
    if sub:
        payload = b''.join(payload)
    w0 = type_ | user << 16 | (ext is not None) << 17 | version << 20
    w2 = len(payload) | sub << 30
    b = (b'\x37\x8a\x1f\xd4' if top else b'') + struct.pack('<IiI', w0, ident, w2)
    if ext is not None:
        b += struct.pack('<I', ext)
    return b + payload


def pad(b):
    return b + bytes(-len(b) % 4)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='demo')
        self.old = os.getcwd()
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def write(name, *objs):
    with open(name, 'wb') as f:
        f.write(b''.join(objs))
    return name
