"""Install the symbolic numpy / struct / xarray stand-ins in dolfyn's modules.

Only module-level *names* are rebound (numpy -> proxy, struct.unpack -> symbolic
unpack, ...); the functions executed are the ones of /repo's working tree."""
import builtins
import math
import os
import struct as _struct
import sys
import types
import warnings
import numpy as np
from . import core, array, npextra, symbytes, symdt
from .array import SymArray, concrete, has_sym, has_wrapped, rewrap
from .core import SymBool, SymComplex, SymNum, is_sym, num

_saved = []


class _TM(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls.real_type):
            return True
        return cls.symcheck(x)

    def __eq__(cls, o):
        return o is cls or o is cls.real_type

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls.real_type)

    def __subclasscheck__(cls, o):
        return o is cls or (isinstance(o, type) and builtins.issubclass(getattr(o, 'real_type', o), cls.real_type))

    def __getattr__(cls, n):
        return getattr(cls.real_type, n)

    def __instancehook__(cls):
        pass


def mktype(name, real, dt, conv, symcheck):
    def __new__(cls, x=0, *a, **k):
        if has_wrapped(x):
            return conv(x)
        return real(x, *a, **k)
    return _TM(name, (), {'real_type': real, 'dtype': np.dtype(dt), '__new__': __new__,
                          'symcheck': staticmethod(symcheck)})


def np_type(nm):
    real = getattr(np, nm)
    dt = np.dtype(real)

    def conv(x):
        r = SymArray.of(x).astype(dt)
        if r.ndim == 0:
            return r[()]
        return r

    def chk(x):
        return (isinstance(x, SymNum) and (dt.kind == 'f' and not x.isint and dt.itemsize == 8)) or \
            (isinstance(x, SymBool) and dt.kind == 'b')
    return mktype(nm, real, dt, conv, chk)


def _int(x):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, SymNum):
        if x.nan is not False:
            if core.ctx().fork(x.nan):
                raise ValueError('cannot convert float NaN to integer')
            x = SymNum(x.p, x.isint)
        return core.simp(core.trunc(x))
    return int(x)


def _float(x):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SymNum):
        return x.real_part() if x.isint else x
    return float(x)


def _bool(x):
    if isinstance(x, SymArray):
        x = x.item()
    if is_sym(x):
        return core.mkbool(core.truthz(x))
    return bool(x)


class NP(types.ModuleType):
    """numpy proxy: creation functions return SymArray; the rest is dispatched
    through the numpy protocols"""

    def __init__(self):
        super().__init__('numpy')
        self._cache = {}
        self.__dict__['linalg'] = Linalg()
        self.__dict__['fft'] = FFT()
        self.__dict__['ndarray'] = mktype('ndarray', np.ndarray, object, lambda x: x,
                                          lambda x: isinstance(x, SymArray))
        for nm in ('float64', 'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8',
                   'uint16', 'uint32', 'uint64', 'bool_', 'complex128', 'complex64',
                   'double', 'float_', 'single', 'intp'):
            self.__dict__[nm] = np_type(nm)

    def __getattr__(self, n):
        f = OVERRIDE.get(n)
        if f is not None:
            return f
        r = getattr(np, n)
        if n.startswith('__'):
            return r
        if isinstance(r, np.ufunc):
            return r
        if isinstance(r, (types.FunctionType, types.BuiltinFunctionType)) or callable(r) and not isinstance(r, type):
            def g(*a, **k):
                return call(r, a, k)
            g.__name__ = n
            self.__dict__[n] = g
            return g
        return r


def strip(x):
    """xarray objects stay; SymArrays inside lists are handled by the dispatcher"""
    return x


# numpy functions that delegate to a method of a non-ndarray first argument
METHODS = {'mean', 'sum', 'std', 'var', 'max', 'min', 'amax', 'amin', 'prod', 'any', 'all', 'cumsum',
           'cumprod', 'round', 'around', 'round_', 'transpose', 'squeeze', 'clip', 'argmax', 'argmin',
           'argsort', 'searchsorted', 'ptp', 'shape', 'ndim', 'size', 'copyto', 'rollaxis', 'moveaxis',
           'swapaxes', 'take', 'repeat', 'reshape', 'ravel', 'nonzero', 'resize', 'iscomplexobj',
           'isrealobj', 'result_type', 'sort', 'real', 'imag', 'real_if_close'}


def call(r, a, k):
    """call numpy function r; lists containing symbolic scalars are dispatched too"""
    keep = getattr(r, '__name__', '') in METHODS
    a2 = [x if (keep and i == 0) else _data(x) for i, x in enumerate(a)]
    k2 = {q: _data(v) for q, v in k.items()}
    if 'dtype' in k2 and hasattr(k2['dtype'], 'real_type'):
        k2['dtype'] = k2['dtype'].dtype
    if any(has_wrapped(x) for x in a2) or any(has_wrapped(x) for x in k2.values()):
        return array.func_dispatch(r, tuple(a2), k2)
    return r(*a2, **k2)


def _data(x):
    if isinstance(x, (list, tuple)) and any(hasattr(y, 'dims') and hasattr(y, 'data') for y in x):
        return type(x)([_data(y) for y in x])
    if hasattr(x, 'dims') and hasattr(x, 'data') and hasattr(x, 'variable') and isinstance(x.data, SymArray):
        return x.data
    return x


class Linalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        r = getattr(np.linalg, n)
        if callable(r) and not isinstance(r, type):
            return lambda *a, **k: call(r, [_xr(x) for x in a], k)
        return r


class FFT(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.fft')

    def __getattr__(self, n):
        r = getattr(np.fft, n)
        if callable(r):
            return lambda *a, **k: call(r, [_xr(x) for x in a], k)
        return r


def _xr(x):
    if hasattr(x, 'dims') and hasattr(x, 'data') and hasattr(x, 'variable'):
        return x.data
    return x


def _shape(s):
    if isinstance(s, (SymArray, np.ndarray)):
        s = s.tolist()
    if is_sym(s):
        s = int(s)
    if isinstance(s, (tuple, list)):
        return tuple(int(v) for v in s)
    return (int(s),)


def _dt(d, default=array.F8):
    if d is None:
        return default
    if hasattr(d, 'real_type'):
        return d.dtype
    return np.dtype(d)


def creator(val):
    def f(shape, dtype=None, order='C', **k):
        d = _dt(dtype)
        o = np.empty(_shape(shape), dtype=object)
        if d.names:
            return np.zeros(_shape(shape), d)
        v = array.cast_el(val, None, d) if d.kind in 'biufc' else (0 if d.kind in 'Mm' else None if d == object else '')
        o[...] = v
        if d.kind in 'US':
            return np.zeros(_shape(shape), d)
        return SymArray(o, d)
    return f


def n_full(shape, fill_value, dtype=None, order='C', **k):
    d = _dt(dtype, array.logical(fill_value))
    o = np.empty(_shape(shape), dtype=object)
    V = SymArray.of(fill_value)
    o[...] = V.a if V.ndim else V.a[()]
    return SymArray(o, array.logical(fill_value)).astype(d)


def n_array(x, dtype=None, copy=True, ndmin=0, **k):
    x = _xr(x)
    d = None if dtype is None else _dt(dtype)
    if d is not None and (d == object or d.names or d.kind in 'US'):
        return np.array(x, dtype=d)
    if not has_wrapped(x):
        r = np.array(_unx(x), dtype=d)
        if r.dtype.kind in 'OUSV':
            return r
        x = r
    r = SymArray.of(x, d)
    r = r.copy() if copy else r
    while r.ndim < ndmin:
        r = SymArray(r.a[None], r.dtype)
    return r


def _unx(x):
    return x


def n_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    return n_array(x, dtype, copy=False)


def n_arange(*a, dtype=None, **k):
    a = [_int(v) if isinstance(v, SymNum) and v.isint else v for v in a]
    a = [v.item() if isinstance(v, SymArray) else v for v in a]
    if any(is_sym(v) for v in a):
        if all(isinstance(v, int) or (isinstance(v, SymNum) and v.isint) for v in a):
            a = [int(v) for v in a]
        elif len(a) >= 2 and is_sym(a[0]):
            # arange(start, stop, step): length = ceil((stop-start)/step)
            start, stop = a[0], a[1]
            step = a[2] if len(a) > 2 else 1
            n = int(-core.floor(num((start - stop) / step)))
            return SymArray.of([start + i * step for i in range(max(n, 0))])
        else:
            start = a[0] if len(a) > 1 else 0
            stop = a[1] if len(a) > 1 else a[0]
            step = a[2] if len(a) > 2 else 1
            n = int(-core.floor(num((start - stop) / step)))
            return SymArray.of([num(start) + i * step for i in range(max(n, 0))], array.F8)
    r = np.arange(*a, dtype=None if dtype is None else _dt(dtype))
    return SymArray.of(r) if r.dtype.kind != 'M' else SymArray.of(r)


def n_linspace(start, stop, num_=50, endpoint=True, **k):
    n = k.get('num', num_)
    if is_sym(start) or is_sym(stop):
        d = (n - 1) if endpoint else n
        return SymArray.of([start + (stop - start) * i / d for i in range(n)])
    return SymArray.of(np.linspace(start, stop, n, endpoint))


def n_fftfreq(n, d=1.0):
    n = int(n)
    if is_sym(d):
        r = np.fft.fftfreq(n, 1.0 / n)
        return SymArray.of([int(v) / (num(d) * n) for v in r])
    return SymArray.of(np.fft.fftfreq(n, d))


def n_fromiter(it, dtype, **k):
    return SymArray.of(list(it), _dt(dtype))


def n_binary_repr(x, width=None):
    """binary text of a symbolic integer: the bits are decided per path"""
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymNum):
        w = int(width)
        s = ''
        for i in reversed(range(w)):
            s += '1' if core.ctx().fork(core.bit(x, i)) else '0'
        return s
    return np.binary_repr(int(x), width)


def n_datetime64(*a):
    return np.datetime64(*[concrete(x, 'datetime64') for x in a])


def n_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def n_unpackbits(a, axis=None, count=None, bitorder='big'):
    A = SymArray.of(a)
    if axis is not None and axis % max(A.ndim, 1) != A.ndim - 1:
        raise core.Unsupported('unpackbits axis')
    flat = A.a.reshape(-1) if axis is None else None
    def bits(x):
        r = [core.mod(core.floordiv(num(x), 1 << i), 2) for i in range(8)]
        return [core.simp(v) for v in (r if bitorder == 'little' else r[::-1])]
    if axis is None:
        out = []
        for x in flat:
            out += bits(x)
        return SymArray.of(out, np.uint8)
    o = np.empty(A.shape[:-1] + (A.shape[-1] * 8,), dtype=object)
    for ix in np.ndindex(*A.shape[:-1]):
        row = []
        for x in A.a[ix]:
            row += bits(x)
        for i, v in enumerate(row):
            o[ix + (i,)] = v
    return SymArray(o, np.uint8)


class MaskedX:
    """what code uses of a masked array: data, mask, filled"""

    def __init__(self, a, mask):
        self.data = SymArray.of(a).copy()
        self.mask = mask

    def filled(self, v=np.nan):
        return NPX.where(self.mask, v, self.data)

    def compressed(self):
        return self.data[np.logical_not(SymArray.of(self.mask))]

    def __getattr__(self, n):
        # reductions skip what is masked
        if n in ('mean', 'sum', 'std', 'var', 'min', 'max'):
            return lambda *a, **k: getattr(NPX, 'nan' + n)(self.filled(), *a, **k)
        if n in ('shape', 'ndim', 'size', 'dtype'):
            return getattr(self.data, n)
        raise AttributeError(n)

    def __getitem__(self, k):
        return self.filled()[k]


class MaskedInvalid(SymArray):
    """np.ma.masked_invalid of a symbolic array: the masked entries are its NaNs"""

    @staticmethod
    def of(x):
        return MaskedInvalid(x.a, x.dtype)

    @property
    def mask(self):
        return np.isnan(SymArray(self.a, self.dtype))

    def filled(self, v=np.nan):
        return NPX.where(self.mask, v, SymArray(self.a, self.dtype))

    def compressed(self):
        return SymArray(self.a, self.dtype)[np.logical_not(self.mask)]


class MA(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.ma')

    def __getattr__(self, n):
        r = getattr(np.ma, n)
        if n == 'masked_where':
            return lambda cond, a, copy=True: MaskedX(_xr(a), _xr(cond)) if has_wrapped(_xr(a)) or has_wrapped(_xr(cond)) else r(cond, a, copy)
        if n in ('masked_array', 'array', 'MaskedArray'):
            def mk(data, mask=None, **k):
                data, mask = _xr(data), _xr(mask)
                if has_wrapped(data) or has_wrapped(mask):
                    D = SymArray.of(data)
                    if mask is None or mask is np.ma.nomask:
                        mask = False
                    return MaskedX(D.copy(), np.broadcast_to(SymArray.of(mask), D.shape))
                return r(data, mask=np.ma.nomask if mask is None else mask, **k)
            return mk
        if n in ('masked_invalid', 'fix_invalid'):
            # masked entries are entries the nan-aware reductions skip
            return lambda a, copy=True, **k: MaskedInvalid.of(SymArray.of(_xr(a)).copy()) if has_wrapped(_xr(a)) else r(a, copy=copy, **k)
        if callable(r) and not isinstance(r, type):
            def g(*a, **k):
                why = 'np.ma.' + n
                return r(*[concrete(_xr(x), why) if has_wrapped(_xr(x)) else x for x in a],
                         **{q: concrete(v, why) for q, v in k.items()})
            return g
        return r


OVERRIDE = {
    'zeros': creator(0), 'empty': creator(0), 'ones': creator(1), 'full': n_full,
    'array': n_array, 'asarray': n_asarray, 'asanyarray': n_asarray, 'ascontiguousarray': n_asarray,
    'arange': n_arange, 'linspace': n_linspace, 'fromiter': n_fromiter,
    'eye': lambda *a, **k: SymArray.of(np.eye(*a, **{q: _dt(v) if q == 'dtype' else v for q, v in k.items()})),
    'identity': lambda *a, **k: SymArray.of(np.identity(*a)),
    'frombuffer': lambda b, dtype=float, count=-1, offset=0: _fb(symbytes.frombuffer(b, _dt(dtype), count, offset)),
    'fromfile': lambda f, dtype=float, count=-1, sep='', offset=0: _fb(symbytes.fromfile(f, _dt(dtype), count, sep, offset)),
    'fromstring': lambda b, dtype=float, count=-1, sep='': _fb(symbytes.frombuffer(b, _dt(dtype), count)),
    'binary_repr': n_binary_repr, 'datetime64': None, 'isscalar': n_isscalar,
    'ma': MA(), 'unpackbits': n_unpackbits,
    'dtype': None,
}
OVERRIDE = {k: v for k, v in OVERRIDE.items() if v is not None}
npextra.install(OVERRIDE)


def _fb(r):
    return SymArray.of(r) if isinstance(r, np.ndarray) and r.dtype.kind in 'iufbc' else r


FFT_OVERRIDE = {'fftfreq': n_fftfreq}
_old_getattr = FFT.__getattr__


def _fft_getattr(self, n):
    if n in FFT_OVERRIDE:
        return FFT_OVERRIDE[n]
    return _old_getattr(self, n)


FFT.__getattr__ = _fft_getattr

NPX = NP()


class StructMod(types.ModuleType):
    def __init__(self):
        super().__init__('struct')
        self.unpack = symbytes.unpack
        self.unpack_from = symbytes.unpack_from
        self.Struct = symbytes.Struct
        self.calcsize = _struct.calcsize
        self.pack = _struct.pack
        self.error = _struct.error


STRUCTX = StructMod()
VFS = {}      # path -> SymBytes


class WFile:
    """binary file being written; a symbolic content is kept in VFS"""

    def __init__(self, path, mode, a, k):
        self.f, self.p, self.parts, self.name = open(path, mode, *a, **k), path, [], path
        self.closed = False

    def write(self, b):
        if isinstance(b, symbytes.SymBytes):
            self.parts.append(b)
            return self.f.write(bytes(len(b)))
        self.parts.append(bytes(b))
        return self.f.write(b)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.f.close()
        VFS.pop(self.p, None)
        if any(isinstance(x, symbytes.SymBytes) for x in self.parts):
            VFS[self.p] = symbytes.SymBytes([y for x in self.parts for y in x])

    def seek(self, *a):
        raise core.Unsupported('seek while writing')

    def __getattr__(self, n): return getattr(self.f, n)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def vopen(path, mode='r', *a, **k):
    p = os.path.abspath(os.path.expanduser(str(path)))
    if p in VFS and 'b' in mode and 'r' in mode:
        return symbytes.SymFile(VFS[p], p)
    if 'b' in mode and 'w' in mode:
        return WFile(p, mode, a, k)
    return open(path, mode, *a, **k)


def scipy_fallback(real, name, handler=None):
    def g(*a, **k):
        if has_wrapped(list(a)) or has_wrapped(list(k.values())) or any(has_wrapped(_xr(x)) for x in a):
            a = [_xr(x) for x in a]
            if handler is not None:
                return handler(*a, **k)
            return rewrap(real(*[concrete(x, name) for x in a], **{q: concrete(v, name) for q, v in k.items()}))
        return real(*a, **k)
    g.__name__ = name
    return g


def linear_along(real, name):
    """real(x, ..., axis=-1) linear in x: apply its matrix"""
    def g(*a, **k):
        raise NotImplementedError
    return g


def s_filtfilt(b, a, x, axis=-1, **k):
    import scipy.signal as ss
    X = SymArray.of(x)
    N = X.shape[axis]
    M = ss.filtfilt(concrete(SymArray.of(b)), concrete(SymArray.of(a)), np.eye(N), axis=0, **k)
    M = np.where(np.abs(M) < 1e-14, 0, M)
    return array.linear_op(M, X, axis)


def s_sosfiltfilt(sos, x, axis=-1, **k):
    import scipy.signal as ss
    X = SymArray.of(x)
    M = ss.sosfiltfilt(concrete(SymArray.of(sos)), np.eye(X.shape[axis]), axis=0, **k)
    return array.linear_op(M, X, axis)


def s_detrend(x, axis=-1, type='linear', **k):
    import scipy.signal as ss
    X = SymArray.of(x)
    M = ss.detrend(np.eye(X.shape[axis]), axis=0, type=type)
    return array.linear_op(M, X, axis)


def s_medfilt(x, kernel_size=3):
    X = SymArray.of(x)
    ks = kernel_size
    if np.isscalar(ks):
        ks = [ks] * X.ndim
    ks = [int(v) for v in ks]
    o = np.empty(X.shape, dtype=object)
    for ix in np.ndindex(*X.shape):
        win = []
        for off in np.ndindex(*ks):
            j = tuple(i + d - q // 2 for i, d, q in zip(ix, off, ks))
            win.append(X.a[j] if all(0 <= v < n for v, n in zip(j, X.shape)) else 0.0)
        o[ix] = array.sort_list(win)[len(win) // 2]
    return SymArray(o, X.dtype)


def s_convolve2d(in1, in2, mode='full', boundary='fill', fillvalue=0):
    import scipy.signal as ss
    A, B = SymArray.of(in1), SymArray.of(in2)
    n = A.size
    out = ss.convolve2d(np.zeros(A.shape), concrete(B).astype(float), mode, boundary, fillvalue)
    o = np.empty(out.shape, dtype=object)
    o[...] = 0
    for ix in np.ndindex(*A.shape):
        e = np.zeros(A.shape)
        e[ix] = 1
        r = ss.convolve2d(e, concrete(B).astype(float), mode, boundary, 0)
        for jx in np.ndindex(*r.shape):
            if r[jx]:
                x = A.a[ix]
                x = int(x) if isinstance(x, bool) else x
                o[jx] = o[jx] + x * float(r[jx])
    return SymArray(o, array.F8)


def x_interpolate_na(orig):
    """DataArray.interpolate_na: for a known pattern of missing values the
    result is linear in the others; its matrix is taken from the real method"""
    def f(self, dim=None, method='linear', **k):
        import xarray as xr
        if not isinstance(self.data, SymArray):
            return orig(self, dim=dim, method=method, **k)
        if method in ('pchip', 'akima'):
            raise core.Unsupported('interpolation method ' + method)
        X = self.data
        ax = self.dims.index(dim)
        v = np.moveaxis(X.a, ax, -1)
        n = v.shape[-1]
        o = np.empty(v.shape, dtype=object)
        co = self.coords[dim] if dim in self.coords else None
        if co is not None and isinstance(co.data, SymArray):
            co = xr.DataArray(concrete(co.data), dims=co.dims)
        for ix in np.ndindex(*v.shape[:-1]):
            miss = []
            for j in range(n):
                x = v[ix + (j,)]
                z = core.nanz(x)
                miss.append(z if isinstance(z, bool) else core.ctx().fork(z))
            good = [j for j in range(n) if not miss[j]]
            o[ix] = v[ix]
            if len(good) == n:
                continue
            tot = [0] * n
            filled = None
            for j in good:
                e = np.zeros(n)
                e[np.array(miss, dtype=bool)] = np.nan
                e[j] = 1
                d = xr.DataArray(e, dims=(dim,), coords={} if co is None else {dim: (dim, co.values)})
                w = orig(d, dim=dim, method=method, **k).values
                filled = ~np.isnan(w)
                for i in range(n):
                    if miss[i] and filled[i] and abs(w[i]) > 1e-14:
                        q = num(v[ix + (j,)])
                        tot[i] = tot[i] + SymNum(q.p, q.isint) * float(w[i])
            if filled is not None:
                for i in range(n):
                    if miss[i] and filled[i]:
                        o[ix + (i,)] = tot[i]
        return self.copy(data=SymArray(np.moveaxis(o, -1, ax), X.dtype))
    return f


class RotX:
    """scipy.spatial.transform.Rotation: quaternions to matrices and back to
    vectors (everything else goes to the real class with concrete data)"""

    def __init__(self, m):
        self.m = m

    @classmethod
    def from_quat(cls, q, **k):
        if isinstance(q, (list, tuple)):
            q = [SymArray.of(_xr(v)).item() if hasattr(v, 'dims') and v.ndim == 0 else _xr(v) for v in q]
        Q = n_array(_xr(q))
        if not has_wrapped(Q):
            from scipy.spatial.transform import Rotation
            return Rotation.from_quat(q, **k)
        if k.get('scalar_first'):
            Q = SymArray(np.roll(Q.a, -1, -1), Q.dtype)
        if Q.ndim == 1:
            return cls(cls._mat(Q.a))
        o = np.empty((Q.shape[0], 3, 3), dtype=object)
        for i in range(Q.shape[0]):
            o[i] = cls._mat(Q.a[i])
        return cls(o)

    @staticmethod
    def _mat(q):
        x, y, z, w = [num(v) for v in q]
        s = x * x + y * y + z * z + w * w
        if bool(s <= 0):
            raise ValueError('Found zero norm quaternions in `quat`.')
        m = [[x * x - y * y - z * z + w * w, 2 * (x * y - z * w), 2 * (x * z + y * w)],
             [2 * (x * y + z * w), -x * x + y * y - z * z + w * w, 2 * (y * z - x * w)],
             [2 * (x * z - y * w), 2 * (y * z + x * w), -x * x - y * y + z * z + w * w]]
        o = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                o[i, j] = m[i][j] / s
        return o

    def as_matrix(self):
        return SymArray(self.m, array.F8)

    as_dcm = as_matrix

    def inv(self):
        return RotX(np.swapaxes(self.m, -1, -2))

    def apply(self, v, inverse=False):
        M = np.swapaxes(self.m, -1, -2) if inverse else self.m
        return NPX.einsum('...ij,...j->...i', SymArray(M, array.F8), n_array(v))


def replacements():
    """real object -> stand-in (by identity)"""
    import scipy.signal as ss
    import scipy.integrate as si
    import scipy.special as sp
    m = {}

    def add(real, fake):
        m[id(real)] = (real, fake)
    add(np, NPX)
    add(np.linalg, NPX.linalg)
    add(np.fft, NPX.fft)
    add(_struct, STRUCTX)
    add(math, npextra.MATHX)
    for nm, f in npextra.MATH.items():
        add(getattr(math, nm), f)
    add(_struct.unpack, symbytes.unpack)
    add(_struct.Struct, symbytes.Struct)
    for f in (np.linalg.inv, np.linalg.det, np.linalg.solve):
        add(f, getattr(NPX.linalg, f.__name__))
    for nm in dir(np):
        r = getattr(np, nm)
        if callable(r) and not isinstance(r, (type, np.ufunc)) and not nm.startswith('_'):
            add(r, getattr(NPX, nm))
    for nm in dir(np.fft):
        r = getattr(np.fft, nm)
        if callable(r) and not nm.startswith('_'):
            add(r, getattr(NPX.fft, nm))
    for nm in ('float64', 'float32', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'ndarray'):
        add(getattr(np, nm), getattr(NPX, nm))
    add(si.cumtrapz, scipy_fallback(si.cumtrapz, 'cumtrapz', array.f_cumtrapz))
    if hasattr(si, 'cumulative_trapezoid'):
        add(si.cumulative_trapezoid, scipy_fallback(si.cumulative_trapezoid, 'cumtrapz', array.f_cumtrapz))
    add(ss.medfilt, scipy_fallback(ss.medfilt, 'medfilt', s_medfilt))
    add(ss.medfilt2d, scipy_fallback(ss.medfilt2d, 'medfilt2d', s_medfilt))
    add(ss.convolve2d, scipy_fallback(ss.convolve2d, 'convolve2d', s_convolve2d))
    add(ss.filtfilt, scipy_fallback(ss.filtfilt, 'filtfilt', s_filtfilt))
    add(ss.detrend, scipy_fallback(ss.detrend, 'detrend', s_detrend))
    add(symdt.Real, symdt.datetime)
    add(symdt.RealTD, symdt.timedelta)
    from scipy.spatial.transform import Rotation
    add(Rotation, RotX)
    add(sp.cbrt, scipy_fallback(sp.cbrt, 'cbrt', lambda x: np.cbrt(SymArray.of(x))))
    add(ss, ModProxy(ss, {'filtfilt': m[id(ss.filtfilt)][1], 'detrend': m[id(ss.detrend)][1],
                          'medfilt': m[id(ss.medfilt)][1], 'medfilt2d': m[id(ss.medfilt2d)][1],
                          'sosfiltfilt': scipy_fallback(ss.sosfiltfilt, 'sosfiltfilt', s_sosfiltfilt)}))
    return m


class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        r = getattr(self._real, n)
        if callable(r) and not isinstance(r, type):
            return scipy_fallback(r, n)
        return r


BI = {
    'int': mktype('int', int, int, _int, lambda x: isinstance(x, SymNum) and x.isint),
    'float': mktype('float', float, float, _float, lambda x: isinstance(x, SymNum) and not x.isint),
    'bool': mktype('bool', bool, bool, _bool, lambda x: isinstance(x, SymBool)),
    'bytes': None,
}


def b_round(x, ndigits=None):
    n = ndigits
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymNum):
        return core.simp(core.rint(x)) if not n else core.rint(x * 10 ** n) / 10 ** n
    return round(x, n) if n is not None else round(x)


def b_min(*a, **k):
    if k or len(a) == 1 and not has_wrapped(a[0]):
        return min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in xs):
        return array._fold(array.e_min2, xs)
    return min(*a)


def b_max(*a, **k):
    if k or len(a) == 1 and not has_wrapped(a[0]):
        return max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in xs):
        return array._fold(array.e_max2, xs)
    return max(*a)


def mods(prefix='dolfyn'):
    return [m for n, m in list(sys.modules.items())
            if (n == prefix or n.startswith(prefix + '.')) and '.tests' not in n and isinstance(m, types.ModuleType)]


class Patched:
    """context manager: dolfyn runs symbolically inside"""
    builtins = ('int', 'float', 'round', 'min', 'max', 'open')

    def structs(self, d, k, v, depth=0):
        """struct.Struct instances held by module globals, by dolfyn objects in
        them or by containers of either"""
        if isinstance(v, _struct.Struct):
            self.saved.append((d, k, v, True))
            d[k] = symbytes.Struct(v.format)
        elif depth < 3 and type(v) is dict and len(v) < 200 and not k == '__builtins__':
            for kk in list(v):
                self.structs(v, kk, v[kk], depth + 1)
        elif depth < 3 and type(v) is list and len(v) < 200:
            for i, x in enumerate(v):
                self.structs(v, i, x, depth + 1)
        elif depth < 3 and type(v).__module__.startswith('dolfyn') and not isinstance(v, type) \
                and type(getattr(v, '__dict__', None)) is dict:
            for kk in list(v.__dict__):
                self.structs(v.__dict__, kk, v.__dict__[kk], depth + 1)

    def __enter__(self):
        rep = replacements()
        self.saved = []
        for m in mods():
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith('__'):
                    continue
                r = rep.get(id(v))
                self.structs(d, k, v)
                if r is not None and r[0] is v:
                    self.saved.append((d, k, v, True))
                    d[k] = r[1]
                elif isinstance(v, types.FunctionType) and v.__defaults__ and v.__module__ == m.__name__:
                    nd = tuple(rep[id(x)][1] if id(x) in rep and rep[id(x)][0] is x else x for x in v.__defaults__)
                    if nd != v.__defaults__:
                        self.saved.append((v, '__defaults__', v.__defaults__, None))
                        v.__defaults__ = nd
            for b, f in (('int', BI['int']), ('float', BI['float']), ('round', b_round),
                         ('min', b_min), ('max', b_max), ('open', vopen)):
                if b not in d:
                    self.saved.append((d, b, None, False))
                    d[b] = f
        import xarray.core.variable as xv
        self._xv = xv
        self._orig = xv._as_array_or_item
        orig = self._orig

        def as_item(data):
            if isinstance(data, SymArray):
                return data
            if isinstance(data, (SymNum, SymBool, SymComplex)):
                return SymArray.of(data)
            return orig(data)
        xv._as_array_or_item = as_item
        import xarray.core.dataarray as xd
        self._xd = xd
        self._orig2 = xv.as_compatible_data
        orig2 = self._orig2

        def compat(data, fastpath=False):
            if isinstance(data, (SymNum, SymBool, SymComplex)):
                data = SymArray.of(data)
            return orig2(data, fastpath)
        import xarray.core.duck_array_ops as xo
        self._xo = xo
        self._orig3 = xo.asarray
        orig3 = self._orig3

        def asarr(data, xp=np):
            return SymArray.of(data) if isinstance(data, (SymNum, SymBool, SymComplex)) else orig3(data, xp)
        xo.asarray = asarr
        xv.as_compatible_data = compat
        self._ina = xd.DataArray.interpolate_na
        xd.DataArray.interpolate_na = x_interpolate_na(self._ina)
        if getattr(xd, 'as_compatible_data', None) is not None:
            xd.as_compatible_data = compat
        # new dolfyn-internal data created from real arrays
        warnings.simplefilter('ignore')
        from . import files
        self._files = files.Files()
        self._files.__enter__()
        return self

    def __exit__(self, *exc):
        self._files.__exit__()
        for d, k, v, had in reversed(self.saved):
            if had is None:
                setattr(d, k, v)
            elif had:
                d[k] = v
            else:
                d.pop(k, None)
        self._xv._as_array_or_item = self._orig
        self._xv.as_compatible_data = self._orig2
        self._xd.DataArray.interpolate_na = self._ina
        self._xo.asarray = self._orig3
        if getattr(self._xd, 'as_compatible_data', None) is not None:
            self._xd.as_compatible_data = self._orig2
        return False
