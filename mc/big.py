"""files with objects of many GiB, stored as sparse files"""
import os
import struct

from . import evio

# around the 30 bit length field, around 31, 32 and 33 bits, and the largest with the extension word
SIZES = [5, 0, (1 << 30) - 1, 1 << 30, (1 << 31) - 8, (1 << 31) + 3, (1 << 32) - 16, (1 << 32) - 12, 1 << 32,
         (1 << 32) + 7, (5 << 32) + 1, (1 << 40) + 9]


class Node:
    def __init__(self, type_, size=0, children=None, ident=0, version=0):
        self.type = type_
        self.children = children
        self.size = size
        self.id = ident
        self.version = version
        self.user = 0

    @property
    def sub(self):
        return self.children is not None

    def place(self, start, top=True):
        if self.sub:
            # sizes first, they decide on the extension word
            self.size = sum(c.total(False) for c in self.children)
        self.ext = self.size >= 1 << 30
        self.start = start
        self.address = start + self.header(top)
        pos = self.address
        for c in self.children or ():
            pos = c.place(pos, False)
        self.end = self.address + self.size
        return self.end

    def header(self, top):
        return 12 + 4 * top + 4 * (self.size >= 1 << 30)

    def total(self, top):
        if self.sub:
            self.size = sum(c.total(False) for c in self.children)
        return self.header(top) + self.size

    def mark(self):
        """last bytes of a leaf"""
        return struct.pack('<Q', self.end)[:min(8, self.size)]

    def write(self, f, top=True):
        f.seek(self.start)
        f.write(evio.head(self.type, self.version, self.id, self.size, self.user, None, int(self.sub), top))
        if self.sub:
            for c in self.children:
                c.write(f, False)
        else:
            f.seek(self.end - len(self.mark()))
            f.write(self.mark())


def write(path, nodes):
    pos = 0
    for n in nodes:
        pos = n.place(pos)
    with open(path, 'wb') as f:
        for n in nodes:
            n.write(f)
        f.truncate(pos)
    return pos


def remove(path):
    os.unlink(path)
