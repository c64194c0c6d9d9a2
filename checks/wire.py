"""Binary record builder: instrument records whose fields are symbolic bytes.
Every method appends the bytes and returns the value they stand for."""
import struct
import numpy as np


def q(cx, x):
    return x


class Rec:
    def __init__(self, cx, pre, avoid=()):
        """avoid: values the symbolic bytes do not take (sync bytes)"""
        self.cx, self.pre, self.b, self.avoid = cx, pre, [], avoid

    def __len__(self):
        return len(self.b)

    def raw(self, *bs):
        for x in bs:
            if isinstance(x, (bytes, bytearray)):
                self.b.extend(x)
            elif isinstance(x, (list, tuple)):
                self.b.extend(x)
            elif isinstance(x, Rec):
                self.b.extend(x.b)
            else:
                self.b.append(x)
        return self

    def pack(self, fmt, *v):
        return self.raw(struct.pack('<' + fmt, *v))

    def zeros(self, n):
        return self.raw(bytes(n))

    def _bytes(self, name, n):
        bs = [self.cx.int('%s.%s[%d]' % (self.pre, name, i), 0, 255) for i in range(n)]
        for x in bs:
            for v in self.avoid:
                self.cx.assume(x != v)
        self.b.extend(bs)
        return bs

    def uint(self, name, n):
        v = 0
        for i, x in enumerate(self._bytes(name, n)):
            v = v + x * (1 << (8 * i))
        return v

    def sint(self, name, n):
        bs = self._bytes(name, n)
        v = 0
        for i, x in enumerate(bs):
            v = v + x * (1 << (8 * i))
        return v - self.cx.ite(bs[-1] >= 128, 1, 0) * (1 << (8 * n))

    def u8(self, name): return self.uint(name, 1)
    def u16(self, name): return self.uint(name, 2)
    def u32(self, name): return self.uint(name, 4)
    def i8(self, name): return self.sint(name, 1)
    def i16(self, name): return self.sint(name, 2)
    def i32(self, name): return self.sint(name, 4)

    def _float(self, name, n, code):
        bs = self._bytes(name, n)
        if self.cx.sym:
            from symx import symbytes
            return symbytes.decode(code, bs, '<')
        return struct.unpack('<' + code, bytes(bs))[0]

    def f32(self, name): return self._float(name, 4, 'f')
    def f64(self, name): return self._float(name, 8, 'd')

    def many(self, kind, name, n):
        return [getattr(self, kind)('%s%d' % (name, i)) for i in range(n)]

    def skip(self, name, n):
        """n bytes of any value that mean nothing"""
        self._bytes(name, n)


def bits(cx, byte, lo, n):
    """the n-bit field at lo of a (symbolic) unsigned number"""
    return cx.floor(byte / float(1 << lo)) - cx.floor(byte / float(1 << (lo + n))) * (1 << n)
