"""Symbolic byte strings, struct decoding and in-memory files."""
import io
import math
import operator
import struct as _struct
import numpy as np
import z3
from . import core
from .core import SymNum, SymBool, as_boolz, is_sym, ite, mkbool, num, simp, zand
from .array import SymArray, concrete

_realbytes = bytes


class SymBytes:
    """immutable sequence of ints / symbolic ints in 0..255"""
    __array_priority__ = 3000

    def __init__(self, b):
        self.b = list(b)

    def __len__(self): return len(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: None if v is None else operator.index(v)
            return SymBytes(self.b[f(i.start):f(i.stop):f(i.step)]).low()
        return self.b[operator.index(i)]

    def low(self):
        if all(isinstance(x, int) for x in self.b):
            return bytes(self.b)
        return self

    def __iter__(self): return iter(self.b)

    def __add__(self, o): return SymBytes(self.b + list(o)).low()
    def __radd__(self, o): return SymBytes(list(o) + self.b).low()

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return False
        o = list(o)
        if len(o) != len(self.b):
            return False
        return mkbool(zand(*[as_boolz(num(x) == y) for x, y in zip(self.b, o)]))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self): return hash(self.concrete())

    def concrete(self):
        return bytes([core.ctx().concretize(x, 'bytes') if is_sym(x) else x for x in self.b])

    def __bytes__(self): return self.concrete()

    def __bool__(self): return len(self.b) > 0

    def __contains__(self, x):
        return bytes([x]) in self.concrete() if isinstance(x, int) else x in self.concrete()

    def decode(self, *a, **k): return self.concrete().decode(*a, **k)
    def hex(self): return SymHex(self)
    def startswith(self, p): return bool(self[:len(p)] == p)

    def find(self, sub, start=0, end=None):
        end = len(self.b) if end is None else end
        for i in range(start, end - len(sub) + 1):
            if bool(SymBytes(self.b[i:i + len(sub)]) == bytes(sub)):
                return i
        return -1

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def __repr__(self): return 'SymBytes(%d)' % len(self.b)

    def __deepcopy__(self, m): return self


class SymHex:
    """hexadecimal text of symbolic bytes"""

    def __init__(self, b):
        self.b = b

    def __len__(self): return 2 * len(self.b)

    def __eq__(self, o):
        if isinstance(o, SymHex):
            return self.b == o.b
        if not isinstance(o, str) or len(o) != len(self) or o != o.lower():
            return False
        try:
            return self.b == bytes.fromhex(o)
        except ValueError:
            return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self): return hash(str(self))

    def __str__(self): return self.b.concrete().hex()

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            a, e, _ = i.indices(len(self))
            if a % 2 == 0 and e % 2 == 0:
                r = self.b[a // 2:e // 2]
                return r.hex() if len(r) else ''
        return str(self)[i]

    def startswith(self, p): return any(bool(self[:len(q)] == q) for q in ((p,) if isinstance(p, str) else p))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(str(self), n)


_SZ = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4,
       'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'e': 2, 's': 1, 'p': 1}


def uint_of(bs, endian):
    bs = list(bs)
    if endian == '>':
        bs = bs[::-1]
    v = num(0)
    for i, x in enumerate(bs):
        v = v + num(x) * (1 << (8 * i))
    return v


def to_signed(v, nbits):
    """two's complement reinterpretation"""
    top = core.bit(v, nbits - 1)
    return v - ite(top, 1, 0) * (1 << nbits)


def float_of(u, nbits):
    name = 'f32' if nbits == 32 else 'f64'
    c = u.const() if isinstance(u, SymNum) else u
    if c is not None:
        f = _struct.unpack('<f' if nbits == 32 else '<d', int(c).to_bytes(nbits // 8, 'little'))[0]
        return f
    F = z3.Function(name, z3.IntSort(), z3.RealSort())
    at = core.atom_of(F(u.z), False)
    if at.name is None:
        at.name = '%s%d' % (name, at.id)
        at.defn = (name, u.p)
    return SymNum({((at.id, 1),): 1})


def decode(code, bs, endian):
    if all(isinstance(x, int) for x in bs):
        return _struct.unpack(('>' if endian == '>' else '<') + (code if code != 'l' else 'l'), bytes(bs))[0]
    n = len(bs)
    if code == 'c':
        return SymBytes(bs)
    u = uint_of(bs, endian)
    if code in 'BHILQ':
        return simp(u)
    if code in 'bhilq':
        return simp(to_signed(u, 8 * n))
    if code == '?':
        return u != 0
    if code in 'fd':
        return float_of(u, 8 * n)
    raise core.Unsupported('struct code ' + code)


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    endian, native = '<', True
    if fmt[:1] in '@=<>!' and fmt:
        native = fmt[0] == '@'
        endian = '>' if fmt[0] in '>!' else '<'
        fmt = fmt[1:]
    items = []
    n = ''
    for ch in fmt:
        if ch.isdigit():
            n += ch
            continue
        if ch.isspace():
            continue
        items.append((int(n) if n else (1 if ch not in 'sp' else 1), ch))
        n = ''
    return endian, native, items


def unpack(fmt, data):
    if isinstance(data, (bytes, bytearray, memoryview)):
        return _struct.unpack(fmt, data)
    if isinstance(data, SymArray):
        data = array_bytes(data)
        if isinstance(data, bytes):
            return _struct.unpack(fmt, data)
    size = _struct.calcsize(fmt)
    if len(data) != size:
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    endian, native, items = parse_fmt(fmt)
    out = []
    p = 0
    for n, ch in items:
        sz = _SZ[ch]
        if native and ch in 'lL':
            sz = 8
        if native and sz > 1:
            p = -(-p // sz) * sz      # native alignment
        if ch == 'x':
            p += n
            continue
        if ch in 'sp':
            out.append(SymBytes(data.b[p:p + n]).low())
            p += n
            continue
        for _ in range(n):
            out.append(decode(ch, data.b[p:p + sz], endian))
            p += sz
    return tuple(out)


def unpack_from(fmt, buffer, offset=0):
    n = _struct.calcsize(fmt)
    return unpack(fmt, buffer[offset:offset + n])


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack(self.format, b[offset:offset + self.size])

    def pack(self, *a):
        return _struct.pack(self.format, *a)


def from_dtype(data, dt, count):
    """frombuffer on symbolic bytes"""
    dt = np.dtype(dt)
    if dt.names:
        out = np.empty(count, dtype=object)
        raise core.Unsupported('structured dtype')
    n = dt.itemsize
    code = {'u': {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}, 'i': {1: 'b', 2: 'h', 4: 'i', 8: 'q'},
            'f': {4: 'f', 8: 'd'}, 'b': {1: '?'}}[dt.kind][n]
    endian = '>' if dt.byteorder == '>' else '<'
    o = np.empty(count, dtype=object)
    for i in range(count):
        o[i] = decode(code, data.b[i * n:(i + 1) * n], endian)
    return SymArray(o, dt.newbyteorder('='))


def frombuffer(buf, dtype=float, count=-1, offset=0):
    if not isinstance(buf, SymBytes):
        r = np.frombuffer(buf, dtype, count, offset)
        return r
    dt = np.dtype(dtype)
    if count < 0:
        if (len(buf) - offset) % dt.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        count = (len(buf) - offset) // dt.itemsize
    if offset + count * dt.itemsize > len(buf):
        raise ValueError('buffer is smaller than requested size')
    return from_dtype(SymBytes(buf.b[offset:offset + count * dt.itemsize]), dt, count)


def fromfile(f, dtype=float, count=-1, sep='', offset=0):
    if not isinstance(f, SymFile):
        return np.fromfile(f, dtype, count, sep)
    dt = np.dtype(dtype)
    avail = (len(f.data) - f.pos) // dt.itemsize
    n = avail if count < 0 else min(count, avail)
    b = f.read(n * dt.itemsize)
    if isinstance(b, bytes):
        return np.frombuffer(b, dt).copy()
    return from_dtype(b, dt, n)


def array_bytes(a):
    """little-endian bytes of an unsigned/signed int array"""
    if not a.symbolic:
        return concrete(a).tobytes()
    out = []
    n = a.dtype.itemsize
    if a.dtype.kind not in 'iu':
        raise core.Unsupported('tobytes of %s' % a.dtype)
    for x in a.a.ravel():
        for i in range(n):
            out.append(simp(core.mod(core.floordiv(num(x), 1 << (8 * i)), 256)))
    return SymBytes(out)


class SymFile:
    """read-only binary file over symbolic bytes"""

    def __init__(self, data, name='symfile'):
        self.data = data if isinstance(data, SymBytes) else SymBytes(data)
        self.pos = 0
        self.name = name
        self.closed = False
        self.mode = 'rb'

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            n = len(self.data) - self.pos
        if isinstance(n, (SymArray, np.ndarray)):
            n = n.item()
        n = operator.index(n)
        if n < 0:
            n = max(0, len(self.data) - self.pos)
        p = min(self.pos, len(self.data))
        r = SymBytes(self.data.b[p:p + n]).low()
        self.pos += len(r)
        return r

    def seek(self, off, whence=0):
        if isinstance(off, (SymArray, np.ndarray)):
            off = off.item()
        off = operator.index(off)
        p = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = p
        return p

    def tell(self): return self.pos
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def readable(self): return True
    def seekable(self): return True
    def flush(self): pass
