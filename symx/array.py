"""SymArray: a duck array (numpy protocols) holding symbolic scalars.

`a` is an object ndarray of python numbers / symbolic scalars; `dtype` is the
logical numpy dtype that the real code would see.
"""
import copy as _copy
import math
import operator
import numpy as np
from . import core
from .core import (SymBool, SymComplex, SymNum, Unsupported, as_boolz, ctx,
                   is_sym, ite, mkbool, nanz, num, simp, truthz, zand, zite,
                   znot, zor)

F8 = np.dtype('float64')
B1 = np.dtype(bool)
I8 = np.dtype('int64')
C16 = np.dtype('complex128')
_nd = np.ndarray


def unwrap_scalar(x, dtype):
    """0-d result: symbolic scalars stay, concrete become numpy scalars"""
    if is_sym(x):
        return x
    if dtype.kind == 'O':
        return x
    try:
        return dtype.type(x) if dtype.kind not in 'Mm' else x
    except Exception:
        return x


def py(x):
    """numpy scalar -> python scalar for storage"""
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        if x.dtype.itemsize < 8 and x == x:
            return float(repr(x)) if abs(x) != math.inf else float(x)
        return float(x)
    if isinstance(x, np.complexfloating):
        return complex(x)
    return x


def to_obj(x):
    """any array-like -> object ndarray"""
    if isinstance(x, SymArray):
        return x.a
    if isinstance(x, _nd):
        if x.dtype == object:
            return x
        o = np.empty(x.shape, dtype=object)
        if x.dtype.kind == 'f' and x.dtype.itemsize < 8:
            for ix in np.ndindex(*x.shape):
                o[ix] = py(x[ix])
        elif x.dtype.kind in 'Mm':
            for ix in np.ndindex(*x.shape):
                o[ix] = x[ix]
        else:
            if x.ndim == 0:
                o[()] = x.item()
            elif x.size:
                o[...] = np.array(x.tolist(), dtype=object).reshape(x.shape) \
                    if x.dtype.kind != 'V' else x
        return o
    if is_sym(x) or np.isscalar(x) or x is None:
        o = np.empty((), dtype=object)
        o[()] = py(x)
        return o
    return SymArray.of(x).a


def logical(x):
    """logical dtype of a scalar/array"""
    if isinstance(x, (SymArray,)):
        return x.dtype
    if isinstance(x, SymNum):
        return I8 if x.isint else F8
    if isinstance(x, SymBool):
        return B1
    if isinstance(x, SymComplex):
        return C16
    if isinstance(x, _nd) or isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return B1
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    if isinstance(x, complex):
        return C16
    return np.asarray(x).dtype


def has_sym(x):
    if isinstance(x, SymArray):
        return x.symbolic
    if is_sym(x):
        return True
    if isinstance(x, _nd):
        return x.dtype == object and any(is_sym(y) for y in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def has_wrapped(x):
    if isinstance(x, SymArray) or is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_wrapped(y) for y in x)
    if isinstance(x, dict):
        return any(has_wrapped(y) for y in x.values())
    return False


def pinned(e, why):
    """a plain value: every value of an integer of small range (one path each), else one value (recorded)"""
    if isinstance(e, SymNum) and e.isint and e.nan is False:
        lo, hi = e.bounds()
        if lo is not None and hi is not None and hi - lo <= 64:
            return ctx().fork_value(e)
    return ctx().concretize(e, why)


def concrete(x, why=''):
    """SymArray -> real ndarray (pinning symbolic elements if any)"""
    if isinstance(x, SymArray):
        if x.symbolic:
            o = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(*x.shape):
                e = x.a[ix]
                o[ix] = pinned(e, why) if is_sym(e) else e
        else:
            o = x.a
        if x.dtype == object:
            return o
        if x.dtype.kind in 'Mm':
            return np.array([py_int(v) for v in o.ravel()], dtype='int64').reshape(o.shape).astype(x.dtype)
        return np.array(o.tolist(), dtype=x.dtype).reshape(o.shape) if o.size else np.zeros(o.shape, x.dtype)
    if is_sym(x):
        return ctx().concretize(x, why)
    if isinstance(x, tuple):
        return tuple(concrete(y, why) for y in x)
    if isinstance(x, list):
        return [concrete(y, why) for y in x]
    if isinstance(x, dict):
        return {k: concrete(v, why) for k, v in x.items()}
    return x


def py_int(v):
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return int(v.astype('int64'))
    return int(v)


def rewrap(x):
    if isinstance(x, _nd):
        return SymArray(to_obj(x), x.dtype)
    if isinstance(x, tuple):
        return tuple(rewrap(y) for y in x)
    if isinstance(x, list):
        return [rewrap(y) for y in x]
    return x


def wrap_int(x, dt):
    """wrap an element to integer dtype dt"""
    if dt.kind not in 'iu':
        return x
    ii = np.iinfo(dt)
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, SymNum):
        lo, hi = x.bounds()
        if lo is not None and hi is not None and lo >= ii.min and hi <= ii.max:
            return x
        if dt.itemsize == 8:
            return x          # 64-bit wrap-around is outside the encoding
        n = 1 << (8 * dt.itemsize)
        r = core.mod(x - int(ii.min), n) + int(ii.min)
        return r
    if isinstance(x, (bool, int)):
        x = int(x)
        if ii.min <= x <= ii.max:
            return x
        n = 1 << (8 * dt.itemsize)
        return (x - int(ii.min)) % n + int(ii.min)
    return x


def cast_el(x, src, dst):
    """element cast (astype semantics)"""
    k = dst.kind
    if dst == object:
        return x
    if k == 'b':
        if isinstance(x, SymNum):
            return mkbool(truthz(x))
        if isinstance(x, (SymBool, bool)):
            return x
        if isinstance(x, SymComplex):
            return mkbool(truthz(x))
        return bool(x)
    if k in 'iu':
        if isinstance(x, SymBool):
            x = x.num()
        elif isinstance(x, SymNum):
            if not x.isint:
                if x.nan is not False:
                    # casting NaN to int: platform value
                    if ctx().fork(x.nan):
                        return -2**63 if dst.itemsize == 8 else 0
                    x = SymNum(x.p, False, False)
                x = core.trunc(x)
        elif isinstance(x, float):
            if x != x or abs(x) == math.inf:
                return int(np.array(x).astype(dst))
            x = int(x)
        elif isinstance(x, bool):
            x = int(x)
        return wrap_int(x, dst)
    if k == 'f':
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, SymNum):
            return x.real_part() if x.isint else x
        if isinstance(x, (SymComplex,)):
            return cast_el(x.re, None, dst)
        if isinstance(x, complex):
            return x.real
        if isinstance(x, (bool, int)):
            return float(x)
        return x
    if k == 'c':
        if isinstance(x, (SymNum, SymBool)):
            return SymComplex(x, 0)
        if isinstance(x, (bool, int, float)):
            return complex(x)
        return x
    if k in 'Mm':
        return cast_time(x, src, dst)
    return x


_UNIT = {'s': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1, 'm': 60 * 10**9,
         'h': 3600 * 10**9, 'D': 86400 * 10**9}


def unit_ns(dt):
    u, n = np.datetime_data(dt)
    return _UNIT[u] * n


def cast_time(x, src, dst):
    """time elements are stored as integer counts of the dtype's unit"""
    if src is None or src.kind not in 'Mm':
        if isinstance(x, float):
            return int(x)
        if isinstance(x, SymNum) and not x.isint:
            return core.trunc(x)
        return x
    a, b = unit_ns(src), unit_ns(dst)
    if a == b:
        return x
    if a > b:
        return x * (a // b)
    if isinstance(x, int):
        return x // (b // a)
    return core.floordiv(x, b // a)


class Flat:
    """ndarray.flat"""

    def __init__(self, A):
        self.A = A

    def __iter__(self):
        return iter([unwrap_scalar(x, self.A.dtype) for x in self.A.a.ravel()])

    def __len__(self):
        return self.A.size

    def __getitem__(self, k):
        return self.A.ravel()[k]

    def __setitem__(self, k, v):
        f = self.A.ravel()
        f = SymArray(f.a.copy(), f.dtype)
        f[k] = v
        self.A.a[...] = f.a.reshape(self.A.shape)


class SymArray:
    __array_priority__ = 2000

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype) if dtype is not None else F8

    # -- construction
    @staticmethod
    def scalar(x, dtype=None):
        o = np.empty((), dtype=object)
        o[()] = x
        return SymArray(o, dtype or logical(x))

    @staticmethod
    def of(x, dtype=None):
        """np.asarray for anything"""
        if isinstance(x, SymArray):
            return x if dtype is None or np.dtype(dtype) == x.dtype else x.astype(dtype)
        if hasattr(x, 'dims') and hasattr(x, 'data') and not isinstance(x, _nd):
            return SymArray.of(x.data, dtype)
        if isinstance(x, _nd):
            if x.dtype.kind in 'Mm':
                o = np.empty(x.shape, dtype=object)
                xi = x.astype('int64')
                for ix in np.ndindex(*x.shape):
                    o[ix] = int(xi[ix])
                r = SymArray(o, x.dtype)
            else:
                r = SymArray(np.array(to_obj(x), dtype=object, copy=True) if x.dtype != object else x, x.dtype)
                if x.dtype == object and has_sym(x):
                    r.dtype = np.result_type(*[logical(e) for e in x.ravel()])
            return r if dtype is None else r.astype(dtype)
        if is_sym(x):
            r = SymArray.scalar(x)
            return r if dtype is None else r.astype(dtype)
        if isinstance(x, (list, tuple, range)):
            items = [SymArray.of(y) if isinstance(y, (list, tuple, range, _nd, SymArray)) or hasattr(y, 'dims') else y for y in x]
            if not items:
                return SymArray(np.empty((0,), dtype=object), dtype or F8)
            if any(isinstance(y, SymArray) for y in items):
                items = [y if isinstance(y, SymArray) else SymArray.of(y) for y in items]
                shp = items[0].shape
                if any(y.shape != shp for y in items):
                    raise ValueError('setting an array element with a sequence: inhomogeneous shape')
                o = np.empty((len(items),) + shp, dtype=object)
                for i, y in enumerate(items):
                    o[i] = y.a if shp else y.a[()]
                dt = np.result_type(*[y.dtype for y in items])
            else:
                o = np.empty((len(items),), dtype=object)
                if any(isinstance(y, (np.datetime64, np.timedelta64)) for y in items):
                    return SymArray.of(np.array(items), dtype)
                for i, y in enumerate(items):
                    o[i] = py(y)
                if any(isinstance(y, (str, bytes)) for y in items):
                    return SymArray(o, np.asarray(items).dtype)
                dt = np.result_type(*[logical(y) for y in items])
            r = SymArray(o, dt)
            # unify element kinds
            r = r.astype(dt)
            return r if dtype is None else r.astype(dtype)
        if x is None or isinstance(x, dict):
            o = np.empty((), dtype=object)
            o[()] = x
            return SymArray(o, object)
        r = np.asarray(x)
        return SymArray.of(r, dtype) if r.dtype != object else SymArray(r, object)

    # -- attributes
    @property
    def shape(self): return self.a.shape

    @shape.setter
    def shape(self, s): self.a = self.a.reshape(s)

    @property
    def ndim(self): return self.a.ndim

    @property
    def size(self): return self.a.size

    @property
    def nbytes(self): return self.a.size * self.dtype.itemsize

    @property
    def itemsize(self): return self.dtype.itemsize

    @property
    def flags(self): return self.a.flags

    @property
    def T(self): return SymArray(self.a.T, self.dtype)

    @property
    def values(self): return self

    @property
    def data(self): return self

    @property
    def flat(self): return Flat(self)

    @property
    def base(self): return None

    @property
    def symbolic(self):
        return any(is_sym(x) for x in self.a.ravel())

    @property
    def real(self):
        if self.dtype.kind == 'c':
            return self.map(lambda x: x.real, F8)
        return self

    @real.setter
    def real(self, v):
        raise Unsupported('set real')

    @property
    def imag(self):
        if self.dtype.kind == 'c':
            return self.map(lambda x: x.imag, F8)
        return self.map(lambda x: 0, self.dtype)

    def map(self, f, dtype):
        o = np.empty(self.a.shape, dtype=object)
        of, af = o.reshape(-1), self.a.reshape(-1)
        for i in range(af.size):
            of[i] = f(af[i])
        return SymArray(o, dtype)

    # -- protocol
    def __array__(self, dtype=None, copy=None):
        r = concrete(self, 'np.asarray')
        return r if dtype is None else r.astype(dtype)

    def __len__(self): return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        x = self.a.ravel()[0]
        return bool(x)

    def __float__(self): return float(self.item())
    def __int__(self):
        x = self.item()
        return int(x)
    def __index__(self):
        if self.ndim or self.dtype.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self.item())
    def __complex__(self): return complex(self.item())

    def __repr__(self):
        return 'SymArray(%s, %s)' % (np.array2string(self.a, threshold=20), self.dtype)

    def __format__(self, spec):
        return repr(self)

    def item(self, *i):
        if i:
            return self.a.item(*i)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.a.ravel()[0]

    def tolist(self): return self.a.tolist()

    def copy(self, order='C'): return SymArray(self.a.copy(), self.dtype)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo=None): return self.copy()

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        if isinstance(dtype, type) and dtype.__name__ in _SHIM_TYPES:
            dtype = _SHIM_TYPES[dtype.__name__]
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return self.copy() if copy else self
        if self.dtype.kind == 'U' or dt.kind in 'US':
            return SymArray.of(concrete(self, 'astype str').astype(dt))
        if np.datetime_data(dt)[0] == 'generic' if dt.kind in 'Mm' else False:
            dt = np.dtype(dt.kind + '8[ns]')
        src = self.dtype
        if src.kind in 'Mm' and dt.kind in 'iuf':
            return self.map(lambda x: cast_el(x, I8, dt), dt)
        return self.map(lambda x: cast_el(x, src, dt), dt)

    def view(self, *a, **k):
        if not a or a[0] is _nd:
            return SymArray(self.a, self.dtype)
        dt = np.dtype(a[0])
        if dt.kind in 'Mm' and self.dtype.kind == 'i' and self.dtype.itemsize == 8:
            return SymArray(self.a.copy(), dt)
        if self.dtype.kind in 'Mm' and dt == I8:
            return SymArray(self.a.copy(), dt)
        raise Unsupported('view(%r)' % (a,))

    # -- structure
    def _s(self, x): return SymArray(x, self.dtype)
    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and not isinstance(s[0], (int, np.integer)) and not is_sym(s[0]) else s
        if isinstance(s, SymArray):
            s = s.tolist()
        if isinstance(s, (tuple, list)):
            s = tuple(operator.index(i) for i in s)
        return self._s(self.a.reshape(s, **k))
    def transpose(self, *s):
        return self._s(self.a.transpose(*s))
    def swapaxes(self, i, j): return self._s(self.a.swapaxes(i, j))
    def flatten(self, order='C'): return self._s(self.a.flatten(order))
    def ravel(self, order='C'): return self._s(self.a.ravel(order))
    def squeeze(self, axis=None): return self._s(self.a.squeeze(axis))
    def repeat(self, n, axis=None): return self._s(self.a.repeat(concrete(n), axis))
    def take(self, i, axis=None, **k): return np.take(self, i, axis)
    def put(self, ind, v, mode='raise'):
        f = self.a.reshape(-1)
        ind = concrete(SymArray.of(ind)).ravel() if not isinstance(ind, int) else [ind]
        v = SymArray.of(v).a.ravel()
        w = np.shares_memory(f, self.a)
        for k, i in enumerate(ind):
            if w:
                f[int(i)] = v[k % len(v)]
            else:
                self.a[np.unravel_index(int(i) % self.a.size, self.a.shape)] = v[k % len(v)]

    def byteswap(self, *a, **k):
        return self

    def newbyteorder(self, *a, **k):
        return self

    def diagonal(self, *a, **k): return self._s(self.a.diagonal(*a, **k))
    def fill(self, v): self[...] = v
    def dot(self, o): return dot(self, o)
    def conj(self): return np.conj(self)
    conjugate = conj
    def clip(self, lo=None, hi=None, **k): return np.clip(self, lo, hi)
    def round(self, decimals=0): return np.round(self, decimals)
    def nonzero(self): return f_nonzero(self)
    def tobytes(self):
        from .symbytes import array_bytes
        return array_bytes(self)
    def resize(self, shape, refcheck=True):
        n = int(np.prod(shape))
        f = np.empty(n, dtype=object)
        f[...] = 0
        m = min(n, self.a.size)
        f[:m] = self.a.ravel()[:m]
        self.a = f.reshape(shape)
    def setflags(self, *a, **k): pass

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.sum, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_sum(self, axis=axis, keepdims=keepdims, dtype=dtype)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.mean, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_mean(self, axis=axis, keepdims=keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if k:
            return func_dispatch(np.std, (self,), dict(k, axis=axis, keepdims=keepdims, ddof=ddof))
        return f_std(self, axis=axis, ddof=ddof, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if k:
            return func_dispatch(np.var, (self,), dict(k, axis=axis, keepdims=keepdims, ddof=ddof))
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)
    def prod(self, axis=None, **k):
        if k:
            return func_dispatch(np.prod, (self,), dict(k, axis=axis))
        return f_prod(self, axis=axis)
    def min(self, axis=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.min, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_min(self, axis=axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.max, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_max(self, axis=axis, keepdims=keepdims)
    def any(self, axis=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.any, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_any(self, axis=axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k):
        if k:
            return func_dispatch(np.all, (self,), dict(k, axis=axis, keepdims=keepdims))
        return f_all(self, axis=axis, keepdims=keepdims)
    def cumsum(self, axis=None, dtype=None, **k): return f_cumsum(self, axis=axis)
    def argmin(self, axis=None, **k): return f_argmin(self, axis=axis)
    def argmax(self, axis=None, **k): return f_argmax(self, axis=axis)
    def argsort(self, axis=-1, **k): return f_argsort(self, axis=axis)
    def sort(self, axis=-1, **k): self.a[...] = f_sort(self, axis=axis).a
    def ptp(self, axis=None, **k): return self.max(axis) - self.min(axis)
    def searchsorted(self, v, side='left', sorter=None): return f_searchsorted(self, v, side)

    # -- indexing
    def _index(self, ix):
        """-> (index usable on self.a) or ('mask', SymArray mask, rest)"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        out = []
        symmask = None
        for i in ix:
            if hasattr(i, 'dims') and hasattr(i, 'data') and not isinstance(i, (_nd, SymArray)):
                i = i.data
            if isinstance(i, SymBool):
                i = bool(i)
            if isinstance(i, SymNum):
                i = operator.index(i)
            elif isinstance(i, (list,)) and has_sym(i):
                i = SymArray.of(i)
            if isinstance(i, SymArray):
                if i.dtype == bool:
                    if i.symbolic:
                        symmask = (len(out), i)
                    else:
                        i = concrete(i)
                elif i.dtype.kind in 'iu':
                    if i.symbolic:
                        o = np.empty(i.shape, dtype=np.int64)
                        for jx in np.ndindex(*i.shape):
                            o[jx] = operator.index(i.a[jx])
                        i = o
                    else:
                        i = concrete(i)
                elif i.ndim == 0 and i.dtype.kind == 'f':
                    raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
                elif i.size == 0:
                    i = np.zeros(i.shape, dtype=int)
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            elif isinstance(i, slice):
                f = lambda v: operator.index(v.item() if isinstance(v, (SymArray, _nd)) else v) if v is not None else None
                i = slice(f(i.start), f(i.stop), f(i.step))
            elif isinstance(i, (float, np.floating)):
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            out.append(i)
        return tuple(out), symmask

    def __getitem__(self, ix):
        ix, sm = self._index(ix)
        if sm is not None:
            # data-dependent shape: decide the mask on this path
            k, m = sm
            o = np.empty(m.shape, dtype=bool)
            for jx in np.ndindex(*m.shape):
                o[jx] = bool(m.a[jx])
            ix = ix[:k] + (o,) + ix[k + 1:]
        r = self.a[ix]
        if isinstance(r, _nd) and not (r.ndim == 0 and self._scalar_ix(ix)):
            return SymArray(r, self.dtype)
        if isinstance(r, _nd):
            r = r[()]
        return self._el(r)

    def _scalar_ix(self, ix):
        return not any(i is Ellipsis for i in ix)

    def _el(self, r):
        if self.dtype.kind in 'Mm':
            if is_sym(r):
                return SymArray.scalar(r, self.dtype)
            return np.array(r).astype('int64').astype(self.dtype)[()]
        if is_sym(r):
            if self.dtype.kind == 'u' or (self.dtype.kind == 'i' and self.dtype.itemsize < 8):
                return SymArray.scalar(r, self.dtype)
            return r
        return unwrap_scalar(r, self.dtype)

    def __setitem__(self, ix, v):
        ix, sm = self._index(ix)
        if hasattr(v, 'dims') and hasattr(v, 'data') and not isinstance(v, (_nd, SymArray)):
            v = v.data
        V = SymArray.of(v)
        if V.dtype != self.dtype:
            if self.dtype.kind in 'iub' and V.dtype.kind in 'fc' or V.dtype.kind != self.dtype.kind or self.dtype.kind in 'iuMm':
                if self.dtype.kind == 'f' and V.dtype.kind == 'c' :
                    raise TypeError('complex to float')
                if self.dtype.kind in 'iu' and V.dtype.kind == 'f' and V.ndim == 0 and core.isnanc(V.a[()]):
                    raise ValueError('cannot convert float NaN to integer')
                V = V.astype(self.dtype)
        if sm is None:
            self.a[ix] = V.a if V.ndim else V.a[()]
            return
        k, m = sm
        if k != 0 or len(ix) != 1:
            # mask inside a tuple: broadcast over the other (slice/int) indices
            full = np.empty(self.a.shape, dtype=object)
            full[...] = False
            # locate positions addressed by replacing the mask with slices
            pre = ix[:k] + (slice(None),) * m.ndim + ix[k + 1:]
            if any(isinstance(i, (list, _nd)) for i in pre):
                raise Unsupported('mixed symbolic mask and fancy index')
            sub = self.a[pre]
            nd_before = sum(1 for i in ix[:k] if isinstance(i, slice))
            if any(i is Ellipsis for i in ix[:k]):
                nd_before = sub.ndim - m.ndim - sum(1 for i in ix[k + 1:] if isinstance(i, slice))
            mm = m.a.reshape((1,) * nd_before + m.shape + (1,) * (sub.ndim - nd_before - m.ndim))
            mm = np.broadcast_to(mm, sub.shape)
        else:
            if m.ndim > self.a.ndim:
                raise IndexError('too many indices')
            sub = self.a
            mm = np.broadcast_to(m.a.reshape(m.shape + (1,) * (sub.ndim - m.ndim)), sub.shape)
        if V.ndim == 0 or V.size == 1:
            vv = V.a.ravel()[0]
            for jx in np.ndindex(*sub.shape):
                c = mm[jx]
                sub[jx] = vv if c is True else sub[jx] if c is False else ite(c, vv, sub[jx])
            return
        if V.shape == sub.shape[-V.ndim:] and False:
            pass
        # values for masked positions in order: data dependent -> fork
        o = np.empty(m.shape, dtype=bool)
        for jx in np.ndindex(*m.shape):
            o[jx] = bool(m.a[jx])
        ix = ix[:k] + (o,) + ix[k + 1:]
        self.a[ix] = V.a

    # -- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return func_dispatch(func, args, kwargs)


_SHIM_TYPES = {}


def _binop(uf, refl=False):
    def f(self, o):
        if hasattr(o, 'dims') and hasattr(o, 'data') and not isinstance(o, (_nd, SymArray)):
            return NotImplemented       # let xarray handle it
        if o is None or isinstance(o, (str, bytes)):
            return NotImplemented
        return uf(o, self) if refl else uf(self, o)
    return f


def _iop(uf):
    def f(self, o):
        r = uf(self, o)
        if r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        self.a[...] = r.astype(self.dtype).a if r.dtype != self.dtype else r.a
        return self
    return f


for _n, _u in dict(add=np.add, sub=np.subtract, mul=np.multiply,
                   truediv=np.true_divide, floordiv=np.floor_divide,
                   mod=np.remainder, pow=np.power, **{'and': np.bitwise_and,
                   'or': np.bitwise_or}, xor=np.bitwise_xor,
                   lshift=np.left_shift, rshift=np.right_shift,
                   matmul=np.matmul).items():
    setattr(SymArray, '__%s__' % _n, _binop(_u))
    setattr(SymArray, '__r%s__' % _n, _binop(_u, True))
    if _n != 'matmul':
        setattr(SymArray, '__i%s__' % _n, _iop(_u))
for _n, _u in dict(lt=np.less, le=np.less_equal, gt=np.greater,
                   ge=np.greater_equal, eq=np.equal, ne=np.not_equal).items():
    setattr(SymArray, '__%s__' % _n, _binop(_u))
SymArray.__neg__ = lambda s: np.negative(s)
SymArray.__pos__ = lambda s: s.copy()
SymArray.__abs__ = lambda s: np.absolute(s)
SymArray.__invert__ = lambda s: np.invert(s)
SymArray.__divmod__ = lambda s, o: (np.floor_divide(s, o), np.remainder(s, o))
SymArray.__hash__ = None


# ------------------------------------------------------------ element kernels

def S(x):
    """scalar usable with python operators (bool -> int)"""
    if isinstance(x, bool):
        return int(x)
    return x


def e_add(x, y):
    return S(x) + S(y)


def e_div(x, y):
    x, y = S(x), S(y)
    if is_sym(x) or is_sym(y):
        return x / y
    if isinstance(x, complex) or isinstance(y, complex):
        return complex(np.true_divide(x, y))
    if y == 0:
        return math.nan if (x == 0 or x != x) else math.copysign(math.inf, x) * (math.copysign(1, y) if isinstance(y, float) else 1)
    return x / y


def e_floordiv(x, y):
    x, y = S(x), S(y)
    if is_sym(x) or is_sym(y):
        return core.floordiv(x, y)
    with np.errstate(all='ignore'):
        return py(np.floor_divide(x, y))


def e_mod(x, y):
    x, y = S(x), S(y)
    if is_sym(x) or is_sym(y):
        return core.mod(x, y)
    with np.errstate(all='ignore'):
        return py(np.remainder(x, y))


def e_pow(x, y):
    x, y = S(x), S(y)
    if is_sym(x) or is_sym(y):
        return core.power(x, y)
    with np.errstate(all='ignore'):
        return py(np.power(x, y))


def e_cmp(op):
    f = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
         '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op]

    def g(x, y):
        r = f(S(x) if op in '<=>=' and not isinstance(x, SymBool) else x, y)
        return r
    return g


def e_and(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return mkbool(zand(as_boolz(x), as_boolz(y)))
    if is_sym(x) or is_sym(y):
        return core.bitand(x, y)
    return int(x) & int(y)


def e_or(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return mkbool(zor(as_boolz(x), as_boolz(y)))
    if is_sym(x) or is_sym(y):
        return core.bitor(x, y)
    return int(x) | int(y)


def e_xor(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        zx, zy = as_boolz(x), as_boolz(y)
        return mkbool(zite(zx, znot(zy), zy))
    if is_sym(x) or is_sym(y):
        return core.bitxor(x, y)
    return int(x) ^ int(y)


def e_abs(x):
    return abs(x)


def e_sqrt(x):
    if is_sym(x):
        return core.sqrt(x)
    with np.errstate(all='ignore'):
        return py(np.sqrt(x))


def npf(f):
    def g(x):
        with np.errstate(all='ignore'):
            return py(f(x))
    return g


def e_isnan(x):
    return mkbool(nanz(x))


def e_isfinite(x):
    if is_sym(x):
        return mkbool(znot(nanz(x)))
    return bool(np.isfinite(x))


def e_sign(x):
    if isinstance(x, SymNum):
        r = ite(as_boolz(SymNum(x.p, x.isint) > 0), 1, ite(as_boolz(SymNum(x.p, x.isint) == 0), 0, -1))
        if x.nan is not False:
            r = ite(x.nan, math.nan, r)
        return r
    return py(np.sign(x))


def lift(symf, realf):
    def g(x):
        if is_sym(x):
            return symf(x)
        return realf(x)
    return g


def e_min2(x, y, nanprop=True):
    if not is_sym(x) and not is_sym(y):
        if x != x or y != y:
            return math.nan if nanprop else (y if x != x else x)
        return min(x, y)
    if core.isnanc(x) or core.isnanc(y):
        return math.nan if nanprop else (y if core.isnanc(x) else x)
    xx, yy = num(x), num(y)
    c = as_boolz(_nonan(yy) < _nonan(xx)) if not core.isinfc(xx) and not core.isinfc(yy) else (y < x)
    c = bool(c) if isinstance(c, np.bool_) else c
    if nanprop:
        return ite(c, y, x) if nanz(x) is False and nanz(y) is False else \
            _withnan(ite(c, _nonan(yy), _nonan(xx)), zor(nanz(x), nanz(y)))
    nx, ny = nanz(x), nanz(y)
    r = ite(c, _nonan(yy), _nonan(xx))
    r = ite(nx, _nonan(yy), ite(ny, _nonan(xx), r))
    return _withnan(r, zand(nx, ny))


def _nonan(x):
    return SymNum(x.p, x.isint) if isinstance(x, SymNum) and x.nan is not False else x


def _withnan(x, n):
    if n is False:
        return x
    x = num(x)
    return core.mk(x.p, x.isint, zor(x.nan, n)) if isinstance(x, SymNum) else x


def e_max2(x, y, nanprop=True):
    nx = -S(x) if not isinstance(x, SymBool) else -x.num()
    ny = -S(y) if not isinstance(y, SymBool) else -y.num()
    return -e_min2(nx, ny, nanprop)


def e_floor(x):
    if isinstance(x, SymNum):
        if x.isint:
            return x
        r = core.floor(SymNum(x.p))
        return core.mk(r.p, False, x.nan)
    return py(np.floor(x))


def e_round(x):
    if isinstance(x, SymNum):
        if x.isint:
            return x
        r = core.rint(SymNum(x.p))
        return core.mk(r.p, False, x.nan)
    return py(np.rint(x))


def e_trunc(x):
    if isinstance(x, SymNum):
        r = core.trunc(SymNum(x.p, x.isint))
        return core.mk(r.p, x.isint, x.nan)
    return py(np.trunc(x))


def e_hypot(x, y):
    if is_sym(x) or is_sym(y):
        return core.sqrt(num(x) * num(x) + num(y) * num(y))
    return py(np.hypot(x, y))


def e_angle(x):
    if isinstance(x, SymComplex):
        return core.arctan2(num(x.im), num(x.re))
    if isinstance(x, (SymNum, SymBool)):
        return core.arctan2(num(0), num(x))
    return py(np.angle(x))


def conj(x):
    return x.conjugate() if not isinstance(x, bool) else int(x)


def e_inv(x):
    if isinstance(x, SymBool):
        return mkbool(znot(x.z))
    if isinstance(x, bool):
        return not x
    return ~x if is_sym(x) else ~int(x)


UFUNCS = {
    np.add: e_add,
    np.subtract: lambda x, y: S(x) - S(y),
    np.multiply: lambda x, y: S(x) * S(y),
    np.true_divide: e_div,
    np.floor_divide: e_floordiv,
    np.remainder: e_mod,
    np.power: e_pow,
    np.float_power: e_pow,
    np.negative: lambda x: -S(x),
    np.positive: lambda x: x,
    np.absolute: e_abs,
    np.fabs: e_abs,
    np.sqrt: e_sqrt,
    np.square: lambda x: S(x) * S(x),
    np.cbrt: lift(lambda x: core.nthroot(x, 3, odd=True), npf(np.cbrt)),
    np.reciprocal: lambda x: e_div(1, x),
    np.cos: lift(core.cos, npf(np.cos)),
    np.sin: lift(core.sin, npf(np.sin)),
    np.tan: lift(core.tan, npf(np.tan)),
    np.arcsin: lift(core.arcsin, npf(np.arcsin)),
    np.arccos: lift(core.arccos, npf(np.arccos)),
    np.arctan: lift(core.arctan, npf(np.arctan)),
    np.arctan2: lambda y, x: core.arctan2(y, x) if is_sym(x) or is_sym(y) else py(np.arctan2(y, x)),
    np.exp: lift(core.exp, npf(np.exp)),
    np.log: lift(core.log, npf(np.log)),
    np.log10: lift(lambda x: core.log(x) / math.log(10), npf(np.log10)),
    np.log2: lift(lambda x: core.log(x) / math.log(2), npf(np.log2)),
    np.deg2rad: lambda x: S(x) * (math.pi / 180),
    np.radians: lambda x: S(x) * (math.pi / 180),
    np.rad2deg: lambda x: S(x) * (180 / math.pi),
    np.degrees: lambda x: S(x) * (180 / math.pi),
    np.hypot: e_hypot,
    np.isnan: e_isnan,
    np.isfinite: e_isfinite,
    np.isinf: lambda x: False if is_sym(x) else bool(np.isinf(x)),
    np.sign: e_sign,
    np.floor: e_floor,
    np.ceil: lambda x: -e_floor(-x) if is_sym(x) else py(np.ceil(x)),
    np.rint: e_round,
    np.trunc: e_trunc,
    np.conjugate: conj,
    np.minimum: e_min2,
    np.maximum: e_max2,
    np.fmin: lambda x, y: e_min2(x, y, False),
    np.fmax: lambda x, y: e_max2(x, y, False),
    np.bitwise_and: e_and,
    np.bitwise_or: e_or,
    np.bitwise_xor: e_xor,
    np.invert: e_inv,
    np.left_shift: lambda x, y: x * (2 ** int(y)) if is_sym(x) else int(x) << int(y),
    np.right_shift: lambda x, y: core.floordiv(x, 2 ** int(y)) if is_sym(x) else int(x) >> int(y),
    np.logical_and: lambda x, y: mkbool(zand(truthz(x), truthz(y))),
    np.logical_or: lambda x, y: mkbool(zor(truthz(x), truthz(y))),
    np.logical_not: lambda x: mkbool(znot(truthz(x))),
    np.logical_xor: lambda x, y: e_xor(mkbool(truthz(x)), mkbool(truthz(y))),
    np.less: lambda x, y: S(x) < S(y),
    np.less_equal: lambda x, y: S(x) <= S(y),
    np.greater: lambda x, y: S(x) > S(y),
    np.greater_equal: lambda x, y: S(x) >= S(y),
    np.equal: lambda x, y: _eq(x, y),
    np.not_equal: lambda x, y: _ne(x, y),
    np.divmod: None,
    np.copysign: None,
}
BOOLOUT = {np.isnan, np.isfinite, np.isinf, np.logical_and, np.logical_or,
           np.logical_not, np.logical_xor, np.less, np.less_equal, np.greater,
           np.greater_equal, np.equal, np.not_equal}


def _eq(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        a, b = as_boolz(x), as_boolz(y)
        return mkbool(zite(a, b, znot(b)))
    return x == y


def _ne(x, y):
    r = _eq(x, y)
    return (not r) if isinstance(r, (bool, np.bool_)) else ~r


def probe(x):
    """tiny concrete stand-in with the same logical dtype, for type resolution"""
    if isinstance(x, SymArray):
        if x.ndim == 0 and False:
            return x.dtype.type(1)
        d = x.dtype
        if d.kind in 'Mm':
            return np.ones((1,), 'int64').astype(d)
        if d == object:
            return np.ones((1,))
        return np.ones((1,) if x.ndim else (), d)
    if isinstance(x, SymNum):
        return 1 if x.isint else 1.0
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymComplex):
        return 1j
    if isinstance(x, _nd):
        if x.dtype.kind in 'US':
            return x.ravel()[:1]
        if x.dtype == object:
            return np.ones((1,))
        return np.ones((1,) if x.ndim else (), x.dtype)
    return x


def result_dtype(uf, inputs, kw=()):
    if uf in BOOLOUT:
        return B1
    with np.errstate(all='ignore'):
        pr = [probe(x) for x in inputs]
        if uf in (np.left_shift, np.right_shift):
            pr = [p for p in pr]
        r = uf(*pr)
    if isinstance(r, tuple):
        r = r[0]
    return r.dtype if hasattr(r, 'dtype') else np.asarray(r).dtype


def ufunc_dispatch(uf, method, inputs, kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    for x in inputs:
        if hasattr(x, 'dims') and hasattr(x, 'data') and not isinstance(x, (_nd, SymArray)):
            return NotImplemented
    if method == '__call__':
        r = ufunc_call(uf, inputs, where=where, dtype=dtype)
        if where is not True and out is not None:
            m = SymArray.of(where)
            r = f_where(m, r, out[0])
        if out is not None and out[0] is not None:
            o = out[0]
            if not isinstance(o, SymArray):
                raise Unsupported('out= real array')
            rr = SymArray.of(r)
            o.a[...] = (rr.astype(o.dtype) if rr.dtype != o.dtype else rr).a
            return o
        return r
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        return reduce_dispatch(uf, inputs[0], axis, keep)
    if method == 'accumulate':
        x = SymArray.of(inputs[0])
        ax = kw.pop('axis', 0)
        return accumulate(x, UFUNCS[uf], ax, x.dtype)
    if method == 'outer':
        a, b = SymArray.of(inputs[0]), SymArray.of(inputs[1])
        return ufunc_call(uf, (a.reshape(a.shape + (1,) * b.ndim), b))
    raise Unsupported('ufunc method %s' % method)


_REDUCERS = {}


def reduce_dispatch(uf, x, axis, keep):
    f = {np.add: f_sum, np.multiply: f_prod, np.minimum: f_min, np.maximum: f_max,
         np.logical_and: f_all, np.logical_or: f_any}.get(uf)
    if f is None:
        return reduce_axis(SymArray.of(x), lambda xs: _fold(UFUNCS[uf], xs), axis, keep, None)
    return f(x, axis=axis, keepdims=keep)


def ufunc_call(uf, inputs, where=True, dtype=None):
    if uf is np.matmul:
        return matmul(*inputs)
    if uf is np.divmod:
        return ufunc_call(np.floor_divide, inputs), ufunc_call(np.remainder, inputs)
    k = UFUNCS.get(uf)
    arrs = [to_obj(x) for x in inputs]
    if any(isinstance(x, (SymArray, _nd)) and (x.dtype.kind in 'Mm') for x in inputs) or \
            any(isinstance(x, (np.datetime64, np.timedelta64)) for x in inputs):
        return time_ufunc(uf, inputs)
    if k is None:
        return rewrap(uf(*[concrete(x, 'ufunc ' + uf.__name__) for x in inputs]))
    dt = result_dtype(uf, inputs) if dtype is None else np.dtype(dtype)
    if dt.kind == 'b' and uf in (np.add, np.multiply):
        k = UFUNCS[np.logical_or if uf is np.add else np.logical_and]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    # value-dependent python-int promotion: ints outside the dtype range
    o = np.empty(shape, dtype=object)
    of = o.reshape(-1)
    post = None
    if dt.kind in 'iu' and uf not in BOOLOUT:
        post = lambda r: wrap_int(r, dt)
    elif dt.kind == 'f':
        post = lambda r: (float(r) if isinstance(r, (int, bool)) else
                          r.real_part() if isinstance(r, SymNum) and r.isint else r)
    # numpy promotes small ints before the operation: uint8 + uint8 wraps
    if len(arrs) == 1:
        af = arrs[0].reshape(-1)
        for i in range(af.size):
            r = k(af[i])
            of[i] = post(r) if post else r
    else:
        bs = [np.broadcast_to(x, shape).reshape(-1) for x in arrs]
        if len(bs) == 2:
            x0, x1 = bs
            for i in range(of.size):
                r = k(x0[i], x1[i])
                of[i] = post(r) if post else r
        else:
            for i in range(of.size):
                r = k(*[x[i] for x in bs])
                of[i] = post(r) if post else r
    if shape == () and not any(isinstance(x, (SymArray,)) and False for x in inputs):
        r = of[0]
        if dt.kind in 'iu' and dt.itemsize < 8 and is_sym(r):
            return SymArray.scalar(r, dt)
        return r if is_sym(r) else unwrap_scalar(r, dt)
    return SymArray(o, dt)


def time_ufunc(uf, inputs):
    """datetime64/timedelta64 arithmetic on integer counts"""
    if uf in (np.isnan, np.isnat):
        return SymArray.of(inputs[0]).map(lambda v: v == -2**63, B1)
    ins = [SymArray.of(x) if not (isinstance(x, (int, float)) or is_sym(x)) else x for x in inputs]
    with np.errstate(all='ignore'):
        try:
            rdt = uf(*[probe(x) for x in ins]).dtype
        except TypeError:
            raise
    tms = [x.dtype for x in ins if isinstance(x, SymArray) and x.dtype.kind in 'Mm']
    if rdt.kind in 'Mm':
        base = np.dtype('m8[%s]' % np.datetime_data(rdt)[0])
    else:
        base = min(tms, key=unit_ns)
    cv = []
    for x in ins:
        if isinstance(x, SymArray) and x.dtype.kind in 'Mm':
            cv.append(SymArray(x.map(lambda v: cast_time(v, x.dtype, base), I8).a, I8))
        elif isinstance(x, SymArray) and rdt.kind in 'Mm' and uf in (np.add, np.subtract):
            cv.append(x)
        else:
            cv.append(x)
    r = ufunc_call(uf, cv)
    if rdt.kind in 'Mm':
        if isinstance(r, SymArray):
            if r.dtype.kind == 'f':
                r = r.map(lambda v: core.trunc(v) if is_sym(v) else int(v), I8)
            return SymArray(r.a, rdt)
        return SymArray.scalar(core.trunc(r) if is_sym(r) else int(r), rdt)
    return r


# ---------------------------------------------------------------- reductions

def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    return (operator.index(axis) % nd,)


def reduce_axis(x, f, axis, keepdims, dtype):
    """f: list of elements -> element"""
    x = SymArray.of(x)
    dt = dtype if dtype is not None else x.dtype
    if x.ndim == 0:
        return fin(f([x.a[()]]), dt)
    ax = norm_axis(axis, x.ndim)
    keep = [i for i in range(x.ndim) if i not in ax]
    y = x.a.transpose(keep + list(ax)).reshape([x.shape[i] for i in keep] + [-1]) if x.size else None
    oshape = [x.shape[i] for i in keep]
    o = np.empty(oshape, dtype=object)
    for ix in np.ndindex(*oshape):
        o[ix] = f(list(y[ix]) if y is not None else [])
    if keepdims:
        o = o.reshape([1 if i in ax else x.shape[i] for i in range(x.ndim)])
    if o.ndim == 0:
        return fin(o[()], dt)
    return SymArray(o, dt)


def fin(r, dt):
    if is_sym(r):
        if dt.kind in 'iu' and dt.itemsize < 8:
            return SymArray.scalar(r, dt)
        return r
    return unwrap_scalar(r, dt) if dt is not None and dt.kind not in 'Mm' else r


def _fold(k, xs):
    r = xs[0]
    for x in xs[1:]:
        r = k(r, x)
    return r


def esum(xs):
    t = 0
    for x in xs:
        t = t + S(x)
    return t


def sumdt(x):
    if x.dtype.kind == 'b' or (x.dtype.kind == 'i' and x.dtype.itemsize < 8):
        return I8
    if x.dtype.kind == 'u':
        return np.dtype('uint64')
    return x.dtype


def f_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **k):
    x = SymArray.of(x)
    dt = np.dtype(dtype) if dtype is not None else sumdt(x)
    return reduce_axis(x, esum, axis, keepdims, dt)


def f_prod(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = SymArray.of(x)
    def p(xs):
        r = 1
        for y in xs:
            r = r * S(y)
        return r
    return reduce_axis(x, p, axis, keepdims, sumdt(x))


def fdt(x):
    return x.dtype if x.dtype.kind in 'fc' else F8


def emean(xs):
    return e_div(esum(xs), len(xs)) if len(xs) else math.nan


def f_mean(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = SymArray.of(x)
    if x.dtype.kind in 'M':
        r = reduce_axis(SymArray(x.a, I8), lambda xs: core.floordiv(esum(xs), len(xs)) if any(is_sym(y) for y in xs) else esum(xs) // len(xs), axis, keepdims, I8)
        return SymArray(r.a, x.dtype) if isinstance(r, SymArray) else SymArray.scalar(r, x.dtype)
    return reduce_axis(x, emean, axis, keepdims, fdt(x))


def abs2(x):
    if isinstance(x, SymComplex):
        return x.re * x.re + x.im * x.im
    if isinstance(x, complex):
        return x.real ** 2 + x.imag ** 2
    return S(x) * S(x)


def evar(xs, ddof=0):
    if not xs:
        return math.nan
    m = emean(xs)
    return e_div(esum([abs2(S(x) - m) for x in xs]), len(xs) - ddof)


def f_var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, lambda xs: evar(xs, ddof), axis, keepdims, fdt(x) if x.dtype.kind != 'c' else F8)


def f_std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, lambda xs: e_sqrt(evar(xs, ddof)), axis, keepdims, fdt(x) if x.dtype.kind != 'c' else F8)


def zero_nan(x):
    n = nanz(x)
    if n is False:
        return x
    if n is True:
        return 0.0
    return ite(n, 0.0, _nonan(x))


def ecount(xs):
    t = 0
    for x in xs:
        n = nanz(x)
        t = t + (1 if n is False else 0 if n is True else ite(znot(n), 1, 0))
    return t


def e_nansum(xs):
    return esum([zero_nan(x) for x in xs])


def e_nanmean(xs):
    return e_div(e_nansum(xs), ecount(xs))


def e_nanvar(xs, ddof=0):
    m = e_nanmean(xs)
    if is_sym(m):
        m = _nonan(m)
    elif m != m:
        m = 0.0
    c = ecount(xs)
    s = esum([ite(nanz(x), 0.0, abs2(_nonan(x) - m)) if nanz(x) is not False else abs2(S(x) - m) for x in xs])
    d = c - ddof
    if is_sym(d):
        # numpy gives nan when the count minus ddof is <= 0
        bad = as_boolz(d <= 0)
        r = e_div(s, ite(bad, 1, d))
        return ite(bad, math.nan, r)
    return e_div(s, d) if d > 0 else math.nan


def f_nansum(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, e_nansum, axis, keepdims, sumdt(x))


def f_nanmean(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, e_nanmean, axis, keepdims, fdt(x))


def f_nanvar(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, lambda xs: e_nanvar(xs, ddof), axis, keepdims, F8)


def f_nanstd(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = SymArray.of(x)
    return reduce_axis(x, lambda xs: e_sqrt(e_nanvar(xs, ddof)), axis, keepdims, F8)


def f_min(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: _fold(e_min2, xs) if xs else _empty(), axis, keepdims, None)


def f_max(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: _fold(e_max2, xs) if xs else _empty(), axis, keepdims, None)


def _empty():
    raise ValueError('zero-size array to reduction operation which has no identity')


def f_nanmin(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: _fold(lambda a, b: e_min2(a, b, False), xs), axis, keepdims, None)


def f_nanmax(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: _fold(lambda a, b: e_max2(a, b, False), xs), axis, keepdims, None)


def f_any(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: mkbool(zor(*[truthz(y) for y in xs])), axis, keepdims, B1)


def f_all(x, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(x, lambda xs: mkbool(zand(*[truthz(y) for y in xs])), axis, keepdims, B1)


def accumulate(x, k, axis, dt):
    x = SymArray.of(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    y = np.moveaxis(x.a, axis, 0)
    o = np.empty(y.shape, dtype=object)
    for i in range(y.shape[0]):
        for ix in np.ndindex(*y.shape[1:]):
            o[(i,) + ix] = S(y[(i,) + ix]) if i == 0 else k(o[(i - 1,) + ix], y[(i,) + ix])
    return SymArray(np.moveaxis(o, 0, axis), dt)


def f_cumsum(x, axis=None, dtype=None, out=None):
    x = SymArray.of(x)
    return accumulate(x, e_add, axis, sumdt(x))


def f_argext(x, axis, better):
    """argmin/argmax by ITE (first occurrence; NaN wins)"""
    x = SymArray.of(x)

    def f(xs):
        bi, bv = 0, xs[0]
        bn = nanz(bv)
        for i, v in enumerate(xs[1:], 1):
            vn = nanz(v)
            a, b = (_nonan(num(v)) if is_sym(v) else v), (_nonan(num(bv)) if is_sym(bv) else bv)
            c = better(S(a), S(b))
            c = as_boolz(c) if not isinstance(c, (bool, np.bool_)) else bool(c)
            c = zand(znot(bn), zor(vn, c))
            bi = ite(c, i, bi)
            bv = ite(c, v, bv)
            bn = zor(bn, vn)
        return bi
    return reduce_axis(x, f, axis, False, I8)


def f_argmin(x, axis=None, out=None, **k):
    return f_argext(x, axis, lambda a, b: a < b)


def f_argmax(x, axis=None, out=None, **k):
    x = SymArray.of(x)
    if x.dtype == bool:
        def f(xs):
            r = 0
            for i in reversed(range(len(xs))):
                r = ite(truthz(xs[i]), i, r)
            return r
        return reduce_axis(x, f, axis, False, I8)
    return f_argext(x, axis, lambda a, b: a > b)


def f_nanarg(which):
    def g(x, axis=None, **k):
        x = SymArray.of(x)
        big = math.inf if which == 'min' else -math.inf
        def f(xs):
            bi, bv, have = 0, None, False
            for i, v in enumerate(xs):
                vn = nanz(v)
                a = _nonan(num(v)) if is_sym(v) else v
                if bv is None:
                    bi, bv, have = i, a, znot(vn)
                    continue
                c = (a < bv) if which == 'min' else (a > bv)
                c = as_boolz(c) if not isinstance(c, (bool, np.bool_)) else bool(c)
                c = zand(znot(vn), zor(znot(have), c))
                bi = ite(c, i, bi)
                bv = ite(c, a, bv)
                have = zor(have, znot(vn))
            return bi
        return reduce_axis(x, f, axis, False, I8)
    return g


def sort_list(xs):
    """sorted elements by a compare-exchange network (NaN last)"""
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return sorted(xs, key=lambda v: (v != v, v if v == v else 0))
    n = len(xs)
    # odd-even transposition / insertion network
    for i in range(n):
        for j in range(i, 0, -1):
            a, b = xs[j - 1], xs[j]
            na, nb = nanz(a), nanz(b)
            A = _nonan(num(a)) if is_sym(a) else a
            B = _nonan(num(b)) if is_sym(b) else b
            if core.isnanc(A):
                sw = znot(nb)
            elif core.isnanc(B):
                sw = False
            else:
                c = B < A
                c = as_boolz(c) if not isinstance(c, (bool, np.bool_)) else bool(c)
                sw = zand(znot(nb), zor(na, c))
            xs[j - 1], xs[j] = ite(sw, b, a), ite(sw, a, b)
    return xs


def f_sort(x, axis=-1, **k):
    x = SymArray.of(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    y = np.moveaxis(x.a, axis, -1)
    o = np.empty(y.shape, dtype=object)
    for ix in np.ndindex(*y.shape[:-1]):
        s = sort_list(y[ix])
        for i, v in enumerate(s):
            o[ix + (i,)] = v
    return SymArray(np.moveaxis(o, -1, axis), x.dtype)


def f_argsort(x, axis=-1, **k):
    x = SymArray.of(x)
    if not x.symbolic:
        return rewrap(np.argsort(concrete(x), axis=axis))
    y = np.moveaxis(x.a, axis, -1)
    o = np.empty(y.shape, dtype=object)
    for ix in np.ndindex(*y.shape[:-1]):
        import functools
        idx = list(range(y.shape[-1]))

        def lt(i, j):
            a, b = y[ix + (i,)], y[ix + (j,)]
            na, nb = mkbool(nanz(a)), mkbool(nanz(b))
            if na:
                return False
            if nb:
                return True
            return bool(a < b)
        # stable insertion sort by forking
        res = []
        for i in idx:
            k_ = len(res)
            while k_ > 0 and lt(i, res[k_ - 1]):
                k_ -= 1
            res.insert(k_, i)
        for p, i in enumerate(res):
            o[ix + (p,)] = i
    return SymArray(np.moveaxis(o, -1, axis), I8)


def e_median(xs):
    if len(xs) == 2:
        return e_div(S(xs[0]) + S(xs[1]), 2)
    xs2 = sort_list(xs)
    n = len(xs2)
    anynan = zor(*[nanz(x) for x in xs])
    if n % 2:
        m = xs2[n // 2]
    else:
        m = e_div(S(xs2[n // 2 - 1]) + S(xs2[n // 2]), 2)
    if anynan is False:
        return m
    return ite(anynan, math.nan, m)


def f_median(x, axis=None, out=None, overwrite_input=False, keepdims=False):
    return reduce_axis(x, e_median, axis, keepdims, F8)


def e_nanmedian(xs):
    xs = [x for x in xs if nanz(x) is not True]
    if not xs:
        return math.nan
    if all(nanz(x) is False for x in xs):
        return e_median(xs)
    s = sort_list(xs)
    c = ecount(xs)
    r = math.nan
    for k in range(1, len(xs) + 1):
        v = s[k // 2] if k % 2 else e_div(S(s[k // 2 - 1]) + S(s[k // 2]), 2)
        eq = (c == k)
        r = ite(as_boolz(eq) if not isinstance(eq, bool) else eq, v, r)
    return r


def f_nanmedian(x, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    return reduce_axis(x, e_nanmedian, axis, keepdims, F8)


# ------------------------------------------------------------- linear algebra

def dot(a, b, out=None):
    A, B = SymArray.of(a), SymArray.of(b)
    if A.ndim == 0 or B.ndim == 0:
        return np.multiply(A, B)
    dt = np.result_type(A.dtype, B.dtype)
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    sub = 'abcdefgh'[:A.ndim - 1] + 'z'
    if B.ndim == 1:
        return einsum(sub + ',z->' + sub[:-1], A, B)
    sb = 'ijklmnop'[:B.ndim - 2] + 'z' + 'y'
    return einsum(sub + ',' + sb + '->' + sub[:-1] + sb[:-2] + 'y', A, B)


def matmul(a, b):
    A, B = SymArray.of(a), SymArray.of(b)
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    if A.ndim == 1 and B.ndim == 1:
        return einsum('i,i->', A, B)
    if B.ndim == 1:
        return einsum('...ij,j->...i', A, B)
    if A.ndim == 1:
        return einsum('i,...ij->...j', A, B)
    return einsum('...ij,...jk->...ik', A, B)


def einsum(spec, *ops, **kw):
    ops = [SymArray.of(o) for o in ops]
    dt = np.result_type(*[o.dtype for o in ops])
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = None
    ins = ins.split(',')
    # expand ellipsis
    if '.' in spec:
        letters = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        nell = [o.ndim - (len(i) - 3) if '...' in i else 0 for i, o in zip(ins, ops)]
        m = max(nell)
        ell = ''.join(letters[:m])
        ins = [i.replace('...', ell[m - n:]) for i, n in zip(ins, nell)]
        if out is None:
            cnt = {}
            for c in ''.join(ins):
                cnt[c] = cnt.get(c, 0) + 1
            out = ell + ''.join(sorted(c for c in cnt if cnt[c] == 1 and c not in ell))
        else:
            out = out.replace('...', ell)
    elif out is None:
        cnt = {}
        for c in ''.join(ins):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError('einsum: operand dimensions do not match the subscripts %r' % spec)
        for c, n in zip(i, o.shape):
            if c in dims and dims[c] != n:
                if dims[c] == 1:
                    dims[c] = n
                elif n != 1:
                    raise ValueError('operands could not be broadcast together')
            dims.setdefault(c, n)
    summed = [c for c in dims if c not in out]
    oshape = tuple(dims[c] for c in out)
    o = np.empty(oshape, dtype=object)
    for ix in np.ndindex(*oshape):
        env = dict(zip(out, ix))
        t = 0
        for jx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, jx))
            p = None
            for i, op in zip(ins, ops):
                v = op.a[tuple(env[c] if op.shape[q] != 1 else 0 for q, c in enumerate(i))]
                p = S(v) if p is None else p * S(v)
                if not is_sym(p) and p == 0 and not any(core.isnanc(0) for _ in ()):
                    pass
            t = t + p
        o[ix] = t
    if o.ndim == 0:
        return fin(o[()], dt)
    return SymArray(o, dt)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    A = SymArray.of(a)
    B = SymArray.of(b)
    A = np.moveaxis(A.a, axisa, -1)
    B = np.moveaxis(B.a, axisb, -1)
    A, B = np.broadcast_arrays(A, B)
    o = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape[:-1]):
        x, y = A[ix], B[ix]
        o[ix + (0,)] = x[1] * y[2] - x[2] * y[1]
        o[ix + (1,)] = x[2] * y[0] - x[0] * y[2]
        o[ix + (2,)] = x[0] * y[1] - x[1] * y[0]
    return SymArray(np.moveaxis(o, -1, axisc), F8)


def det(a):
    A = SymArray.of(a)
    n = A.shape[-1]

    def d(m):
        if m.shape[0] == 1:
            return m[0, 0]
        t = 0
        for j in range(m.shape[0]):
            minor = np.delete(np.delete(m, 0, 0), j, 1)
            t = t + (m[0, j] * d(minor)) * (1 if j % 2 == 0 else -1)
        return t
    if A.ndim == 2:
        return d(A.a)
    o = np.empty(A.shape[:-2], dtype=object)
    for ix in np.ndindex(*o.shape):
        o[ix] = d(A.a[ix])
    return SymArray(o, F8)


def inv(a):
    A = SymArray.of(a)
    if not A.symbolic:
        return rewrap(np.linalg.inv(concrete(A)))
    n = A.shape[-1]
    o = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape[:-2]):
        m = A.a[ix]
        # orthonormal fast path: m m^T == 1 in normal form
        D = det(SymArray(m, F8))
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(m, j, 0), i, 1)
                cof = det(SymArray(minor, F8)) if n > 1 else 1
                o[ix + (i, j)] = e_div(cof * (1 if (i + j) % 2 == 0 else -1), D)
    return SymArray(o, F8)


def solve(a, b):
    return matmul(inv(a), b)


# ------------------------------------------------------------ other functions

def f_where(c, x=None, y=None):
    if x is None:
        return f_nonzero(c)
    C, X, Y = SymArray.of(c), SymArray.of(x), SymArray.of(y)
    dt = np.result_type(probe(x) if not np.isscalar(x) else x, probe(y) if not np.isscalar(y) else y)
    if X.dtype.kind in 'Mm' or Y.dtype.kind in 'Mm':
        dt = np.result_type(X.dtype, Y.dtype)
    X, Y = X.astype(dt, copy=False), Y.astype(dt, copy=False)
    shape = np.broadcast_shapes(C.shape, X.shape, Y.shape)
    c_, x_, y_ = (np.broadcast_to(v.a, shape) for v in (C, X, Y))
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        c = truthz(c_[ix])
        o[ix] = ite(c, x_[ix], y_[ix])
    if shape == ():
        return fin(o[()], dt)
    return SymArray(o, dt)


def f_nonzero(x):
    x = SymArray.of(x)
    o = np.empty(x.shape, dtype=bool)
    for ix in np.ndindex(*x.shape):
        o[ix] = bool(mkbool(truthz(x.a[ix])))
    return tuple(rewrap(i) for i in np.nonzero(o))


def f_diff(x, n=1, axis=-1, prepend=None, append=None):
    x = SymArray.of(x)
    nov = getattr(np, '_NoValue', None)
    parts = []
    for e, first in ((prepend, True), (append, False)):
        if e is None or e is nov:
            continue
        e = SymArray.of(e)
        if e.ndim == 0:
            sh = list(x.shape)
            sh[axis] = 1
            e = f_broadcast_to(e, tuple(sh))
        parts.append((e, first))
    if parts:
        x = np.concatenate([e for e, f in parts if f] + [x] + [e for e, f in parts if not f], axis=axis)
    for _ in range(n):
        sl1 = [slice(None)] * x.ndim
        sl2 = [slice(None)] * x.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        if x.dtype == bool:
            x = np.not_equal(x[tuple(sl1)], x[tuple(sl2)])
        else:
            x = x[tuple(sl1)] - x[tuple(sl2)]
    return x


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = SymArray.of(a), SymArray.of(b)
    r = np.less_equal(np.absolute(A - B), atol + rtol * np.absolute(B))
    if equal_nan:
        r = np.logical_or(r, np.logical_and(np.isnan(A), np.isnan(B)))
    return r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(f_all(f_isclose(a, b, rtol, atol, equal_nan)))


def f_interp(x, xp, fp, left=None, right=None, period=None):
    X, XP, FP = SymArray.of(x), SymArray.of(xp), SymArray.of(fp)
    if X.symbolic or XP.symbolic:
        return _interp_sym(X, XP, FP, left, right)
    xs, xps = concrete(X).astype(float), concrete(XP).astype(float)
    n = len(xps)
    if n == 0:
        raise ValueError('array of sample points is empty')
    o = np.empty(X.shape, dtype=object)
    for ix in np.ndindex(*X.shape):
        v = xs[ix]
        if v != v:
            o[ix] = math.nan
        elif v < xps[0]:
            o[ix] = FP.a[0] if left is None else left
        elif v > xps[-1]:
            o[ix] = FP.a[-1] if right is None else right
        else:
            j = int(np.searchsorted(xps, v, side='right')) - 1
            if j >= n - 1:
                o[ix] = FP.a[n - 1]
            elif xps[j] == v:
                o[ix] = FP.a[j]
            else:
                sl = (FP.a[j + 1] - FP.a[j]) / core.toq(float(xps[j + 1] - xps[j])) if is_sym(FP.a[j]) or is_sym(FP.a[j + 1]) else (FP.a[j + 1] - FP.a[j]) / float(xps[j + 1] - xps[j])
                o[ix] = sl * float(v - xps[j]) + FP.a[j]
    return SymArray(o, F8) if X.ndim else fin(o[()], F8)


def _interp_sym(X, XP, FP, left, right):
    n = XP.size
    o = np.empty(X.shape, dtype=object)
    for ix in np.ndindex(*X.shape):
        v = X.a[ix]
        r = FP.a[n - 1] if right is None else right
        if n:
            r = ite(as_boolz(mkbool(truthz(S(v) == XP.a[n - 1]))), FP.a[n - 1], r)
        for j in range(n - 2, -1, -1):
            seg = e_div(S(FP.a[j + 1]) - S(FP.a[j]), S(XP.a[j + 1]) - S(XP.a[j])) * (S(v) - S(XP.a[j])) + S(FP.a[j])
            c = (S(v) < XP.a[j + 1])
            r = ite(as_boolz(c) if not isinstance(c, (bool, np.bool_)) else bool(c), seg, r)
        c = (S(v) < XP.a[0])
        r = ite(as_boolz(c) if not isinstance(c, (bool, np.bool_)) else bool(c), FP.a[0] if left is None else left, r)
        o[ix] = r
    return SymArray(o, F8) if X.ndim else fin(o[()], F8)


def linear_op(matrix, x, axis, dt=F8):
    """apply a concrete matrix along an axis"""
    x = SymArray.of(x)
    M = np.asarray(matrix)
    y = np.moveaxis(x.a, axis, -1)
    o = np.empty(y.shape[:-1] + (M.shape[0],), dtype=object)
    for ix in np.ndindex(*y.shape[:-1]):
        v = y[ix]
        for i in range(M.shape[0]):
            t = 0
            for j in range(M.shape[1]):
                c = M[i, j]
                if c != 0:
                    t = t + (v[j] * (complex(c) if np.iscomplexobj(M) else float(c)))
            o[ix + (i,)] = t
    return SymArray(np.moveaxis(o, -1, axis), dt)


def f_fft(a, n=None, axis=-1, norm=None):
    A = SymArray.of(a)
    N = A.shape[axis]
    if n is not None and n != N:
        A = f_padtrunc(A, n, axis)
        N = n
    M = np.fft.fft(np.eye(N))
    M = np.round(M.real, 15) + 1j * np.round(M.imag, 15)
    return linear_op(M, A, axis, C16)


def f_rfft(a, n=None, axis=-1, norm=None):
    A = SymArray.of(a)
    r = f_fft(A, n, axis)
    N = r.shape[axis]
    sl = [slice(None)] * r.ndim
    sl[axis] = slice(0, N // 2 + 1)
    return r[tuple(sl)]


def f_padtrunc(A, n, axis):
    N = A.shape[axis]
    sl = [slice(None)] * A.ndim
    if n < N:
        sl[axis] = slice(0, n)
        return A[tuple(sl)]
    shp = list(A.shape)
    shp[axis] = n - N
    z = np.empty(shp, dtype=object)
    z[...] = 0.0
    return SymArray(np.concatenate([A.a, z], axis), A.dtype)


def f_searchsorted(a, v, side='left', sorter=None):
    A, V = SymArray.of(a), SymArray.of(v)
    def one(x):
        t = 0
        for y in A.a:
            c = (y < x) if side == 'left' else (y <= x)
            t = t + (int(c) if isinstance(c, (bool, np.bool_)) else c.num())
        return t
    r = V.map(one, I8)
    return r if V.ndim else fin(r.a[()], I8)


def f_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, *, equal_nan=True):
    k = dict(return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis, equal_nan=equal_nan)
    x = SymArray.of(x)
    if not x.symbolic or return_index or return_inverse or return_counts or axis is not None:
        r = np.unique(concrete(x) if not x.symbolic else concrete(x, 'np.unique'), **k)
        return tuple(rewrap(v) for v in r) if isinstance(r, tuple) else rewrap(r)
    xs = x.ravel().a
    idx = f_argsort(SymArray(xs, x.dtype)).a
    out = []
    for i in idx:
        if out and bool(xs[i] == out[-1]):
            continue
        out.append(xs[i])
    o = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        o[i] = v
    return SymArray(o, x.dtype)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    Y = SymArray.of(y)
    if x is None:
        d = dx
    else:
        X = SymArray.of(x)
        d = f_diff(X) if X.ndim == 1 else f_diff(X, axis=axis)
        if X.ndim == 1:
            shp = [1] * Y.ndim
            shp[axis] = d.shape[0]
            d = d.reshape(shp)
    s1 = [slice(None)] * Y.ndim
    s2 = [slice(None)] * Y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return ((Y[tuple(s1)] + Y[tuple(s2)]) * d / 2.0).sum(axis)


def f_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    Y = SymArray.of(y)
    d = dx if x is None else f_diff(SymArray.of(x))
    if x is not None and d.ndim == 1 and Y.ndim > 1:
        shp = [1] * Y.ndim
        shp[axis] = d.shape[0]
        d = d.reshape(shp)
    s1 = [slice(None)] * Y.ndim
    s2 = [slice(None)] * Y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    r = f_cumsum((Y[tuple(s1)] + Y[tuple(s2)]) * d / 2.0, axis=axis)
    if initial is not None:
        shp = list(r.shape)
        shp[axis] = 1
        z = np.empty(shp, dtype=object)
        z[...] = float(initial)
        r = SymArray(np.concatenate([z, r.a], axis), r.dtype)
    return r


def f_gradient(f, *v, axis=None, edge_order=1):
    F = SymArray.of(f)
    if axis is None and F.ndim == 1:
        axis = 0
    if axis is None or (v and not np.isscalar(v[0])):
        return rewrap(np.gradient(concrete(F, 'gradient'), *v, axis=axis, edge_order=edge_order))
    h = v[0] if v else 1.0
    M = np.apply_along_axis(lambda c: np.gradient(c, h, edge_order=edge_order), 0, np.eye(F.shape[axis]))
    return linear_op(M, F, axis)


def f_convolve(a, v, mode='full'):
    A, V = SymArray.of(a), SymArray.of(v)
    if V.symbolic and not A.symbolic:
        A, V = V, A
    if V.symbolic:
        raise Unsupported('convolve of two symbolic arrays')
    M = np.apply_along_axis(lambda c: np.convolve(c, concrete(V).astype(float), mode), 0, np.eye(A.size))
    return linear_op(M, A, 0)


def f_correlate(a, v, mode='valid'):
    A, V = SymArray.of(a), SymArray.of(v)
    if V.symbolic and A.symbolic:
        # direct definition
        n, m = A.size, V.size
        full = []
        Vc = [conj(x) for x in V.a]
        for k in range(-(m - 1), n):
            t = 0
            for j in range(m):
                if 0 <= k + j < n:
                    t = t + A.a[k + j] * Vc[j]
            full.append(t)
        if mode == 'full':
            r = full
        elif mode == 'same':
            L = max(n, m)
            s = (len(full) - L) // 2
            r = full[s:s + L]
        else:
            L = max(n, m) - min(n, m) + 1
            s = min(n, m) - 1
            r = full[s:s + L]
        o = np.empty(len(r), dtype=object)
        for i, x in enumerate(r):
            o[i] = x
        return SymArray(o, np.result_type(A.dtype, V.dtype))
    if V.symbolic:
        raise Unsupported('correlate')
    M = np.apply_along_axis(lambda c: np.correlate(c, concrete(V).astype(float), mode), 0, np.eye(A.size))
    return linear_op(M, A, 0)


def f_polyfit(x, y, deg, **k):
    X, Y = SymArray.of(x), SymArray.of(y)
    if X.symbolic:
        # normal equations
        V = np.empty((X.size, deg + 1), dtype=object)
        for i in range(X.size):
            for j in range(deg + 1):
                V[i, j] = core.power(X.a[i], deg - j) if is_sym(X.a[i]) else X.a[i] ** (deg - j)
        V = SymArray(V, F8)
        A = einsum('ij,ik->jk', V, V)
        b = einsum('ij,i->j', V, Y)
        return matmul(inv(A), b)
    xs = concrete(X).astype(float)
    M = np.apply_along_axis(lambda c: np.polyfit(xs, c, deg), 0, np.eye(xs.size))
    return linear_op(M, Y, 0)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = SymArray.of(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


def f_round(a, decimals=0, out=None):
    A = SymArray.of(a)
    if decimals == 0:
        r = np.rint(A)
    elif decimals >= 3 and A.dtype.kind == 'f':
        o = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(*A.shape):
            e = A.a[ix]
            o[ix] = core.round_dec(e, decimals) if is_sym(e) and not getattr(e, 'isint', False) else np.round(float(e), decimals)
        r = SymArray(o, A.dtype)
    else:
        r = np.rint(A * 10 ** decimals) / 10 ** decimals
    return r if A.ndim else (r.item() if isinstance(r, SymArray) else r)


def f_unwrap_(p, discont=None, axis=-1, *, period=2 * math.pi):
    P = SymArray.of(p)
    d = f_diff(P, axis=axis)
    half = period / 2
    dm = np.remainder(d + half, period) - half
    dm = f_where(np.logical_and(np.equal(dm, -half), np.greater(d, 0)), half, dm)
    ph = dm - d
    ph = f_where(np.less(np.absolute(d), half if discont is None else discont), 0, ph)
    up = P.copy()
    sl = [slice(None)] * P.ndim
    sl[axis] = slice(1, None)
    up[tuple(sl)] = P[tuple(sl)] + f_cumsum(ph, axis=axis)
    return up


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    X = SymArray.of(x)
    r = X.map(lambda v: v if nanz(v) is False else (nan if nanz(v) is True else ite(nanz(v), nan, _nonan(v))), X.dtype)
    if not copy and isinstance(x, SymArray):
        x.a[...] = r.a
        return x
    return r


def f_array_equal(a, b, equal_nan=False):
    A, B = SymArray.of(a), SymArray.of(b)
    if A.shape != B.shape:
        return False
    return bool(f_all(np.equal(A, B)))


def f_angle(z, deg=False):
    Z = SymArray.of(z)
    r = Z.map(e_angle, F8)
    if deg:
        r = r * (180 / math.pi)
    return r if Z.ndim else fin(r.item() if isinstance(r, SymArray) else r, F8)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = SymArray.of(m)
    if not rowvar:
        X = X.T
    if y is not None:
        X = np.vstack([X if X.ndim > 1 else X.reshape(1, -1), SymArray.of(y).reshape(1, -1)])
    dd = (0 if bias else 1) if ddof is None else ddof
    X = X - f_mean(X, axis=1, keepdims=True)
    return einsum('ij,kj->ik', X, np.conj(X)) / (X.shape[1] - dd)


def f_outer(a, b, out=None):
    return einsum('i,j->ij', SymArray.of(a).ravel(), SymArray.of(b).ravel())


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    A, W = SymArray.of(a), SymArray.of(weights)
    return f_sum(A * W, axis) / f_sum(np.broadcast_to(W, A.shape), axis)


def f_broadcast_to(a, shape, subok=False):
    A = SymArray.of(a)
    return SymArray(np.broadcast_to(A.a, shape), A.dtype)


def f_broadcast_arrays(*a, **k):
    A = [SymArray.of(x) for x in a]
    return [SymArray(y, x.dtype) for x, y in zip(A, np.broadcast_arrays(*[x.a for x in A]))]


def structural(func, args, kwargs):
    """shape-only functions: run the real numpy on the object arrays"""
    dts = []

    def conv(x, top=False):
        if isinstance(x, SymArray):
            dts.append(x.dtype)
            return x.a
        if isinstance(x, _nd):
            dts.append(x.dtype)
            return to_obj(x)
        if hasattr(x, 'dims') and hasattr(x, 'data'):
            return conv(x.data)
        if is_sym(x):
            dts.append(logical(x))
            o = np.empty((), dtype=object)
            o[()] = x
            return o
        if isinstance(x, list):
            return [conv(y) for y in x]
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        return x
    name = func.__name__
    if name in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'append', 'block'):
        def lift_(x):
            return SymArray.of(x)
        if name == 'append':
            a0 = [conv(lift_(args[0])), conv(lift_(args[1]))] + list(args[2:])
        else:
            a0 = [[conv(lift_(y)) for y in args[0]]] + list(args[1:])
    else:
        a0 = [conv(args[0])] + [concrete(x, name) if isinstance(x, SymArray) and i > 0 and name not in ('insert', 'where', 'select') else (conv(x) if name in ('insert',) and i == 2 else x)
                                for i, x in list(enumerate(args))[1:]]
        if isinstance(a0[0], list):
            a0[0] = SymArray.of(args[0]).a
            dts.append(SymArray.of(args[0]).dtype)
    kw = {k: (concrete(v, name) if isinstance(v, SymArray) else v) for k, v in kwargs.items() if k not in ('out', 'dtype', 'casting')}
    r = func(*a0, **kw)
    dt = np.result_type(*dts) if dts else F8
    if all(d.kind in 'Mm' for d in dts) and dts:
        dt = dts[0]

    def wrap(x):
        if isinstance(x, _nd):
            return SymArray(x, dt)
        if isinstance(x, list):
            return [wrap(y) for y in x]
        if isinstance(x, tuple):
            return tuple(wrap(y) for y in x)
        return x
    return wrap(r)


STRUCT = {np.concatenate, np.stack, np.vstack, np.hstack, np.dstack,
          np.column_stack, np.append, np.reshape, np.ravel, np.transpose,
          np.swapaxes, np.moveaxis, np.rollaxis, np.squeeze, np.expand_dims,
          np.tile, np.repeat, np.roll, np.flip, np.fliplr, np.flipud, np.rot90,
          np.split, np.array_split, np.hsplit, np.vsplit, np.atleast_1d,
          np.atleast_2d, np.atleast_3d, np.delete, np.insert, np.take, np.diag,
          np.diagonal, np.triu, np.tril, np.take_along_axis, np.resize}


def f_copy(a, order='K', subok=False):
    return SymArray.of(a).copy()


def f_like(fill):
    def g(a, *args, **k):
        fv = args[0] if fill is None else fill
        if fill is None:
            args = args[1:]
        dt = k.get('dtype') or (args[0] if args else None) or a.dtype
        shape = k.get('shape')
        A = SymArray.of(a)
        o = np.empty(A.shape if shape is None else shape, dtype=object)
        dt = np.dtype(_SHIM_TYPES.get(getattr(dt, '__name__', ''), dt))
        v = cast_el(py(fv), None, dt) if not is_sym(fv) else fv
        o[...] = v
        return SymArray(o, dt)
    return g


def f_shape(a):
    return SymArray.of(a).shape


def f_size(a, axis=None):
    A = SymArray.of(a)
    return A.size if axis is None else A.shape[axis]


def f_iscomplexobj(x):
    return logical(x).kind == 'c'


def f_result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else probe(x) for x in a])


def f_copyto(dst, src, casting='same_kind', where=True):
    r = f_where(where, src, dst) if where is not True else SymArray.of(src)
    dst.a[...] = r.a


def f_putmask(a, mask, values):
    a[mask] = values


def f_apply_along_axis(f, axis, arr, *args, **kw):
    A = SymArray.of(arr)
    y = np.moveaxis(A.a, axis, -1)
    outs = {}
    for ix in np.ndindex(*y.shape[:-1]):
        outs[ix] = SymArray.of(f(SymArray(y[ix], A.dtype), *args, **kw))
    first = next(iter(outs.values()))
    o = np.empty(y.shape[:-1] + first.shape, dtype=object)
    for ix, v in outs.items():
        o[ix] = v.a if v.ndim else v.a[()]
    if first.ndim:
        o = np.moveaxis(o, tuple(range(y.ndim - 1, o.ndim)), tuple(range(axis % A.ndim, axis % A.ndim + first.ndim)))
    return SymArray(o, first.dtype)


def f_argwhere(a):
    return np.transpose(np.array([concrete(x) for x in f_nonzero(a)]))


def f_flatnonzero(a):
    return f_nonzero(SymArray.of(a).ravel())[0]


def f_count_nonzero(a, axis=None, **k):
    return f_sum(SymArray.of(a).astype(bool), axis=axis)


def f_isin(a, b, **k):
    A, B = SymArray.of(a), SymArray.of(b).ravel()
    return A.map(lambda x: mkbool(zor(*[as_boolz(_eq(x, y)) for y in B.a])), B1)


def f_percentile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, _scale=100.0, _nan=False):
    A = SymArray.of(a)
    if method != 'linear':
        raise Unsupported('percentile method')
    if not np.isscalar(q):
        r = [f_percentile(A, float(v), axis, method=method, keepdims=keepdims, _scale=_scale, _nan=_nan) for v in np.asarray(q).ravel()]
        return np.stack([SymArray.of(x) for x in r])

    def f(xs):
        if _nan:
            xs = [x for x in xs if not (nanz(x) if isinstance(nanz(x), bool) else ctx().fork(nanz(x)))]
            if not xs:
                return math.nan
        bad = zor(*[nanz(x) for x in xs])
        if bad is not False and (bad is True or ctx().fork(bad)):
            return math.nan
        s = sort_list([_nonan(x) for x in xs])
        pos = (len(s) - 1) * q / _scale
        i = int(math.floor(pos))
        fr = pos - i
        return s[i] if fr == 0 else s[i] * (1 - fr) + s[i + 1] * fr
    return reduce_axis(A, f, axis, keepdims, F8)


def f_quantile(a, q, axis=None, _nan=False, **k):
    return f_percentile(a, q, axis, _scale=1.0, _nan=_nan, **k)


def f_nanpercentile(a, q, axis=None, **k):
    return f_percentile(a, q, axis, _nan=True, **k)


def f_nanquantile(a, q, axis=None, **k):
    return f_percentile(a, q, axis, _scale=1.0, _nan=True, **k)


FUNCS = {
    np.sum: f_sum, np.prod: f_prod, np.mean: f_mean, np.var: f_var, np.std: f_std,
    np.nansum: f_nansum, np.nanmean: f_nanmean, np.nanvar: f_nanvar, np.nanstd: f_nanstd,
    np.min: f_min, np.max: f_max, np.amin: f_min, np.amax: f_max,
    np.nanmin: f_nanmin, np.nanmax: f_nanmax, np.any: f_any, np.all: f_all,
    np.cumsum: f_cumsum, np.argmin: f_argmin, np.argmax: f_argmax,
    np.nanargmin: f_nanarg('min'), np.nanargmax: f_nanarg('max'),
    np.sort: f_sort, np.argsort: f_argsort, np.median: f_median, np.nanmedian: f_nanmedian,
    np.dot: dot, np.einsum: einsum, np.cross: cross, np.linalg.inv: inv, np.linalg.det: det,
    np.linalg.solve: solve, np.where: f_where, np.nonzero: f_nonzero, np.diff: f_diff,
    np.isclose: f_isclose, np.allclose: f_allclose, np.interp: f_interp,
    np.fft.fft: f_fft, np.fft.rfft: f_rfft, np.searchsorted: f_searchsorted, np.unique: f_unique,
    np.trapz: f_trapz, np.gradient: f_gradient, np.convolve: f_convolve, np.correlate: f_correlate,
    np.polyfit: f_polyfit, np.clip: f_clip, np.round: f_round, np.around: f_round,
    np.unwrap: f_unwrap_, np.nan_to_num: f_nan_to_num, np.array_equal: f_array_equal,
    np.angle: f_angle, np.cov: f_cov, np.outer: f_outer, np.inner: lambda a, b: dot(a, SymArray.of(b).T),
    np.average: f_average, np.broadcast_to: f_broadcast_to, np.broadcast_arrays: f_broadcast_arrays,
    np.copy: f_copy, np.zeros_like: f_like(0), np.ones_like: f_like(1), np.empty_like: f_like(0),
    np.full_like: f_like(None), np.shape: f_shape, np.ndim: lambda a: SymArray.of(a).ndim,
    np.size: f_size, np.iscomplexobj: f_iscomplexobj,
    np.isrealobj: lambda x: not f_iscomplexobj(x),
    np.real: lambda x: SymArray.of(x).real if not is_sym(x) else x.real,
    np.imag: lambda x: SymArray.of(x).imag if not is_sym(x) else x.imag,
    np.result_type: f_result_type, np.copyto: f_copyto, np.putmask: f_putmask,
    np.apply_along_axis: f_apply_along_axis, np.argwhere: f_argwhere,
    np.flatnonzero: f_flatnonzero, np.count_nonzero: f_count_nonzero, np.isin: f_isin,
    np.linalg.norm: lambda x, ord=None, axis=None, keepdims=False: np.sqrt(f_sum(SymArray.of(x) * np.conj(SymArray.of(x)), axis=axis, keepdims=keepdims)),
    np.percentile: f_percentile, np.nanpercentile: f_nanpercentile, np.quantile: f_quantile, np.nanquantile: f_nanquantile, np.nancumsum: lambda x, axis=None, **k: f_cumsum(SymArray.of(x).map(zero_nan, SymArray.of(x).dtype), axis),
    np.vdot: lambda a, b: einsum('i,i->', np.conj(SymArray.of(a).ravel()), SymArray.of(b).ravel()),
    np.trace: lambda a, **k: einsum('ii->', a),
    np.fix: lambda x, out=None: np.trunc(SymArray.of(x)),
    np.may_share_memory: lambda a, b, *r: False,
    np.ptp: lambda x, axis=None, **k: f_max(x, axis=axis) - f_min(x, axis=axis),
    np.array_repr: lambda a, *r, **k: repr(a),
    np.array_str: lambda a, *r, **k: repr(a),
    np.array2string: lambda a, *r, **k: repr(a),
    np.iscomplex: lambda x: SymArray.of(x).imag != 0,
    np.isreal: lambda x: SymArray.of(x).imag == 0,
}


_QK = ('out', 'overwrite_input', 'method', 'keepdims')
_HARMLESS = {'out': (None,), 'where': (True,), 'order': ('K', 'C', None), 'casting': ('same_kind',), 'subok': (True, False), 'copy': (True,),
             'kind': (None, 'quicksort', 'mergesort', 'stable'), 'overwrite_input': (False, True), 'keepdims': (False,), 'initial': (None,), 'dtype': (None,),
             'mode': ('raise',), 'optimize': (True, False, 'greedy', 'optimal'), 'assume_unique': (False, True), 'returned': (False,),
             'full': (False,), 'threshold': None, 'precision': None, 'suppress_small': None}
_params = {}


def _named(f):
    r = _params.get(f)
    if r is None:
        import inspect
        ps = inspect.signature(f).parameters.values()
        r = _params[f] = (any(p.kind == p.VAR_KEYWORD for p in ps), {p.name for p in ps})
    return r


def check_kwargs(func, f, kwargs):
    """options a stand-in would swallow must not change the result"""
    var, names = _named(f)
    if not var:
        return
    nov = getattr(np, '_NoValue', None)
    for k, v in kwargs.items():
        if k in names and not (k in ('where', 'initial') and func is np.sum):
            continue
        if func in (np.nanpercentile, np.quantile, np.nanquantile) and k in _QK:
            continue
        ok = _HARMLESS.get(k, ())
        if v is nov or ok is None or any(v is o or (isinstance(v, str) and v == o) for o in ok):
            continue
        if k == 'dtype' and func in (np.mean, np.std, np.var, np.nanmean, np.nanstd, np.nanvar):
            continue
        raise Unsupported('np.%s(%s=%r)' % (func.__name__, k, v))


def masked_reduce(func, f, args, kwargs):
    """reductions with where= / initial="""
    nov = getattr(np, '_NoValue', None)
    kw = dict(kwargs)
    w, ini = kw.pop('where', True), kw.pop('initial', None)
    if ini is nov:
        ini = None
    if w is True or w is nov:
        w = None
    if w is None and ini is None:
        return f(*args, **kw)
    X = SymArray.of(args[0])
    neutral = {np.sum: 0, np.nansum: 0, np.prod: 1, np.any: False, np.all: True, np.min: ini, np.max: ini, np.amin: ini, np.amax: ini}
    if func in (np.mean, np.nanmean) and w is not None:
        W = np.broadcast_to(SymArray.of(w), X.shape)
        ax = {k: v for k, v in kw.items() if k in ('axis', 'keepdims')}
        if len(args) > 1:
            ax['axis'] = args[1]
        return (f_nansum if func is np.nanmean else f_sum)(f_where(W, X, 0.0), **ax) / f_sum(W.map(lambda v: ite(v, 1, 0) if is_sym(v) else int(v), I8), **ax)
    if func not in neutral or (w is not None and neutral[func] is None):
        raise Unsupported('np.%s(where=)' % func.__name__)
    if w is not None:
        X = f_where(SymArray.of(w), X, neutral[func])
    r = f(X, *args[1:], **kw)
    if ini is not None and func not in (np.any, np.all):
        r = {np.sum: np.add, np.nansum: np.add, np.prod: np.multiply, np.min: np.minimum, np.amin: np.minimum}.get(func, np.maximum)(r, ini)
    return r


def func_dispatch(func, args, kwargs):
    f = FUNCS.get(func)
    if f is not None:
        if 'where' in kwargs or 'initial' in kwargs:
            return masked_reduce(func, f, args, kwargs)
        if kwargs:
            check_kwargs(func, f, kwargs)
        return f(*args, **kwargs)
    if func in STRUCT:
        return structural(func, args, kwargs)
    why = 'np.' + func.__name__
    if not has_sym(args) and not has_sym(kwargs):
        return rewrap(func(*concrete(tuple(args)), **concrete(dict(kwargs))))
    return rewrap(func(*concrete(tuple(args), why), **concrete(dict(kwargs), why)))
