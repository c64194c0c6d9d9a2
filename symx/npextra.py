"""More numpy functions and the math module over symbolic scalars."""
import math
import types
import numpy as np
from . import array, core
from .array import (B1, C16, F8, FUNCS, I8, STRUCT, SymArray, UFUNCS, accumulate, e_isnan, e_max2, e_min2, e_mod,
                    f_fft, f_searchsorted, f_where, fin, ite, linear_op, matmul, mkbool, truthz, zand, znot, zor)
from .core import SymBool, SymNum, is_sym, nanz

A = SymArray.of


def _sym(x):
    return is_sym(x)


def e_fmod(x, y):
    if not (is_sym(x) or is_sym(y)):
        return math.fmod(x, y)
    q = array.e_div(x, y)
    return x - y * array.e_trunc(q)


def e_signbit(x):
    return x < 0 if is_sym(x) else bool(np.signbit(x))


def e_copysign(x, y):
    if not (is_sym(x) or is_sym(y)):
        return math.copysign(x, y)
    m = array.e_abs(x)
    s = e_signbit(y)
    if isinstance(s, (bool, np.bool_)):
        return -m if s else m
    return ite(s, -m, m)


def e_heaviside(x, h):
    if not is_sym(x):
        return h if x == 0 else float(x > 0) if x == x else math.nan
    r = ite(x > 0, 1.0, ite(x == 0, h, 0.0))
    z = nanz(x)
    return r if z is False else ite(mkbool(z), math.nan, r)


UFUNCS.update({np.fmod: e_fmod, np.signbit: e_signbit, np.copysign: e_copysign, np.heaviside: e_heaviside,
               np.exp2: lambda x: core.power(2.0, x) if is_sym(x) else 2.0 ** x,
               np.expm1: lambda x: core.exp(x) - 1 if is_sym(x) else math.expm1(x),
               np.log1p: lambda x: core.log(1 + x) if is_sym(x) else math.log1p(x)})
array.BOOLOUT.add(np.signbit)


def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = f_where(c, v, r)
    return r


def f_choose(a, choices, out=None, mode='raise'):
    i = A(a)
    n = len(choices)
    r = A(choices[n - 1])
    for k in range(n - 2, -1, -1):
        r = f_where(i == k, choices[k], r)
    return r


def f_cumprod(x, axis=None, dtype=None, out=None):
    X = A(x)
    dt = X.dtype if X.dtype.kind in 'fc' else I8
    if X.dtype.kind == 'b':
        X = X.astype(I8)
    return accumulate(X, UFUNCS[np.multiply], axis, dt)


def f_ediff1d(x, to_end=None, to_begin=None):
    X = A(x).ravel()
    r = X[1:] - X[:-1]
    parts = ([A(to_begin).ravel()] if to_begin is not None else []) + [r] + ([A(to_end).ravel()] if to_end is not None else [])
    return np.concatenate(parts) if len(parts) > 1 else r


def f_tensordot(a, b, axes=2):
    X, Y = A(a), A(b)
    if isinstance(axes, int):
        ax, ay = list(range(X.ndim - axes, X.ndim)), list(range(axes))
    else:
        ax, ay = [[v] if isinstance(v, int) else list(v) for v in axes]
    ax, ay = [v % X.ndim for v in ax], [v % Y.ndim for v in ay]
    L = 'abcdefghijklmnopqrstuvwxyz'
    sx = list(L[:X.ndim])
    sy = list(L[X.ndim:X.ndim + Y.ndim])
    for i, j in zip(ax, ay):
        sy[j] = sx[i]
    out = [c for i, c in enumerate(sx) if i not in ax] + [c for j, c in enumerate(sy) if j not in ay]
    return array.einsum('%s,%s->%s' % (''.join(sx), ''.join(sy), ''.join(out)), X, Y)


def f_digitize(x, bins, right=False):
    b = A(bins)
    if b.symbolic:
        raise core.Unsupported('digitize with symbolic bins')
    v = np.asarray([float(t) for t in b.a])
    if v.size > 1 and v[0] > v[-1]:
        raise core.Unsupported('digitize with falling bins')
    return f_searchsorted(b, x, side='left' if right else 'right')


def f_polyval(p, x):
    P = A(p)
    X = A(x)
    y = X * 0.0
    for c in P.a.ravel():
        y = y * X + c
    return y


def f_ifft(a, n=None, axis=-1, norm=None):
    X = A(a)
    N = X.shape[axis]
    if (n is not None and n != N) or norm not in (None, 'backward'):
        raise core.Unsupported('ifft options')
    M = np.fft.ifft(np.eye(N))
    return linear_op(np.round(M.real, 16) + 1j * np.round(M.imag, 16), X, axis, C16)


def f_irfft(a, n=None, axis=-1, norm=None):
    X = A(a)
    K = X.shape[axis]
    N = 2 * (K - 1) if n is None else int(n)
    if norm not in (None, 'backward') or K != N // 2 + 1:
        raise core.Unsupported('irfft options')
    re = np.round(np.fft.irfft(np.eye(K), N, axis=0), 16)
    im = np.round(np.fft.irfft(1j * np.eye(K), N, axis=0), 16)
    return linear_op(re, X.real, axis) + linear_op(im, X.imag, axis)


def _mask(c):
    """concrete mask: one path per pattern"""
    return np.array([bool(v) for v in A(c).a.ravel()], dtype=bool)


def f_compress(condition, a, axis=None, out=None):
    c = _mask(condition)
    X = A(a)
    if axis is None:
        return X.ravel()[:c.size][c]
    return np.take(X, np.nonzero(c)[0], axis=axis)


def f_extract(condition, arr):
    return A(arr).ravel()[_mask(condition)]


def f_meshgrid(*xi, copy=True, sparse=False, indexing='xy'):
    xs = [A(x).ravel() for x in xi]
    n = len(xs)
    ax = list(range(n))
    if indexing == 'xy' and n > 1:
        ax[0], ax[1] = 1, 0
    shape = [0] * n
    for x, k in zip(xs, ax):
        shape[k] = x.size
    out = []
    for x, k in zip(xs, ax):
        s = [1] * n
        s[k] = x.size
        v = x.reshape(*s)
        out.append(v if sparse else array.f_copy(array.f_broadcast_to(v, tuple(shape))))
    return out


def f_sliding_window_view(x, window_shape, axis=None, *, subok=False, writeable=False):
    X = A(x)
    return SymArray(np.lib.stride_tricks.sliding_window_view(X.a, window_shape, axis, subok=False), X.dtype)


def f_pad(a, pad_width, mode='constant', **k):
    X = A(a)
    if not isinstance(mode, str):
        raise core.Unsupported('pad mode')
    idx = np.arange(X.size).reshape(X.shape)
    if mode in ('edge', 'reflect', 'symmetric', 'wrap'):
        j = np.pad(idx, pad_width, mode=mode, **k)
        return SymArray(X.a.reshape(-1)[j], X.dtype)
    if mode != 'constant':
        raise core.Unsupported('pad mode ' + mode)
    cv = k.get('constant_values', 0)
    if not np.isscalar(cv) and not is_sym(cv):
        raise core.Unsupported('pad constants')
    j = np.pad(idx, pad_width, constant_values=-1)
    o = np.empty(j.shape, dtype=object)
    for ix in np.ndindex(*j.shape):
        o[ix] = cv if j[ix] < 0 else X.a.reshape(-1)[j[ix]]
    return SymArray(o, X.dtype)


def f_nanprod(x, axis=None, **k):
    X = A(x)
    return array.f_prod(f_where(np.isnan(X), 1.0, X), axis=axis)


def f_corrcoef(x, y=None, rowvar=True, **k):
    c = array.f_cov(x, y, rowvar)
    d = np.diagonal(c)
    s = np.sqrt(d)
    return c / s[:, None] / s[None, :]


def f_lstsq(a, b, rcond=None):
    M, Y = A(a), A(b)
    if M.symbolic:
        T = np.conj(M).T
        return array.solve(matmul(T, M), matmul(T, Y)), None, M.shape[1], None
    P = np.linalg.pinv(array.concrete(M))
    return (matmul(A(P), Y), None, np.linalg.matrix_rank(array.concrete(M)), None)


def f_pinv(a, **k):
    M = A(a)
    T = np.conj(M).T
    if M.shape[0] >= M.shape[1]:
        return matmul(array.inv(matmul(T, M)), T)
    return matmul(T, array.inv(matmul(M, T)))


def f_lexsort(keys, axis=-1):
    ks = [A(k) for k in (keys if isinstance(keys, (list, tuple)) else list(A(keys)))]
    idx = np.arange(ks[0].size)
    for k in ks:
        idx = idx[np.asarray(array.concrete(array.f_argsort(SymArray(k.a[idx], k.dtype), kind='stable')), dtype=int)]
    return idx


def f_partition(a, kth, axis=-1, **k):
    return array.f_sort(a, axis=axis)


def f_histogram(a, bins=10, range=None, density=None, weights=None):
    if np.isscalar(bins) and range is None:
        raise core.Unsupported('histogram with automatic range')
    e = np.linspace(range[0], range[1], bins + 1) if np.isscalar(bins) else np.asarray(array.concrete(A(bins)), dtype=float)
    X = A(a).ravel()
    W = None if weights is None else A(weights).ravel()
    out = []
    for i in np.arange(len(e) - 1):
        n = 0.0 if W is not None else 0
        for j, x in enumerate(X.a):
            c = mkbool(zand(truthz(x >= e[i]), truthz(x <= e[i + 1] if i == len(e) - 2 else x < e[i + 1])))
            w = 1 if W is None else W.a[j]
            n = n + (ite(c, w, 0 * w) if is_sym(c) else (w if c else 0 * w))
        out.append(n)
    o = np.empty(len(out), dtype=object)
    o[:] = out
    r = SymArray(o, F8 if W is not None or density else I8)
    if density:
        r = r / np.diff(e) / array.f_sum(r)
    return r, e


def f_shift(sign):
    def f(x, axes=None):
        X = A(x)
        ax = range(X.ndim) if axes is None else [axes] if isinstance(axes, int) else axes
        for a in ax:
            n = X.shape[a]
            X = np.roll(X, n // 2 if sign > 0 else -(n // 2), axis=a)
        return X
    return f


def f_setdiff1d(a, b, assume_unique=False):
    X = A(a).ravel()
    if not assume_unique:
        X = array.f_unique(X)
    return X[~_mask(array.f_isin(X, b))]


def f_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise core.Unsupported('intersect1d indices')
    X = array.f_unique(A(a).ravel())
    return X[_mask(array.f_isin(X, b))]


def f_union1d(a, b):
    return array.f_unique(np.concatenate([A(a).ravel(), A(b).ravel()]))


FUNCS.update({
    np.select: f_select, np.choose: f_choose, np.cumprod: f_cumprod, np.ediff1d: f_ediff1d,
    np.tensordot: f_tensordot, np.digitize: f_digitize, np.polyval: f_polyval, np.fft.ifft: f_ifft, np.fft.irfft: f_irfft,
    np.compress: f_compress, np.extract: f_extract, np.meshgrid: f_meshgrid, np.pad: f_pad,
    np.lib.stride_tricks.sliding_window_view: f_sliding_window_view, np.nanprod: f_nanprod,
    np.corrcoef: f_corrcoef, np.linalg.lstsq: f_lstsq, np.linalg.pinv: f_pinv, np.lexsort: f_lexsort,
    np.partition: f_partition, np.histogram: f_histogram, np.fft.fftshift: f_shift(1), np.fft.ifftshift: f_shift(-1),
    np.in1d: array.f_isin, np.iterable: lambda x: A(x).ndim > 0, np.cumproduct: f_cumprod,
    np.setdiff1d: f_setdiff1d, np.intersect1d: f_intersect1d, np.union1d: f_union1d,
    np.nancumprod: lambda x, axis=None, **k: f_cumprod(f_where(np.isnan(A(x)), 1.0, A(x)), axis),
})


# ------------------------------------------------------------------- math

def _u(uf, real):
    def g(x, *r):
        x = array.SymArray.of(x).item() if isinstance(x, SymArray) else x
        r = [v.item() if isinstance(v, SymArray) else v for v in r]
        if is_sym(x) or any(is_sym(v) for v in r):
            return array.ufunc_call(uf, [x] + r)
        return real(x, *r)
    g.__name__ = real.__name__
    return g


def _int_of(uf, real):
    def g(x):
        if isinstance(x, SymArray):
            x = x.item()
        if is_sym(x):
            from .shim import _int
            return _int(array.ufunc_call(uf, [x]))
        return real(x)
    return g


def m_log(x, base=None):
    if is_sym(x):
        r = core.log(x)
        return r if base is None else r / math.log(base)
    return math.log(x) if base is None else math.log(x, base)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    lim = e_max2(e_max2(array.e_abs(a), array.e_abs(b)) * rel_tol, abs_tol)
    return array.e_abs(a - b) <= lim


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if any(is_sym(x) for x in xs) else math.fsum(xs)


def m_hypot(*xs):
    if any(is_sym(x) for x in xs):
        t = 0.0
        for x in xs:
            t = t + x * x
        return core.sqrt(t)
    return math.hypot(*xs)


MATH = {}
for _n, _uf in (('sqrt', np.sqrt), ('cos', np.cos), ('sin', np.sin), ('tan', np.tan), ('asin', np.arcsin),
                ('acos', np.arccos), ('atan', np.arctan), ('atan2', np.arctan2), ('exp', np.exp),
                ('log10', np.log10), ('log2', np.log2), ('log1p', np.log1p), ('expm1', np.expm1),
                ('radians', np.radians), ('degrees', np.degrees), ('fabs', np.fabs), ('isnan', np.isnan),
                ('isfinite', np.isfinite), ('isinf', np.isinf), ('fmod', np.fmod), ('copysign', np.copysign),
                ('pow', np.float_power)):
    MATH[_n] = _u(_uf, getattr(math, _n))
MATH.update(floor=_int_of(np.floor, math.floor), ceil=_int_of(np.ceil, math.ceil), trunc=_int_of(np.trunc, math.trunc),
            log=m_log, isclose=m_isclose, fsum=m_fsum, hypot=m_hypot)


class MathMod(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.__dict__.update(MATH)

    def __getattr__(self, n):
        return getattr(math, n)


MATHX = MathMod()


class RC:
    """np.r_ / np.c_"""

    def __init__(self, real, name):
        self.real, self.name = real, name

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if not any(array.has_wrapped(x) for x in ks):
            from .shim import n_array
            return A(self.real[k])
        if isinstance(ks[0], str):
            raise core.Unsupported('np.%s_ with a directive' % self.name)
        xs = []
        for x in ks:
            if isinstance(x, slice):
                x = self.real[x] if self.name == 'r' else np.r_[x]
            xs.append(np.atleast_1d(A(x)))
        return np.concatenate(xs) if self.name == 'r' else np.column_stack(xs)

    def __len__(self):
        return 0


def vectorize(pyfunc, otypes=None, **kw):
    real = np.vectorize(pyfunc, otypes=otypes, **kw)

    def g(*a, **k):
        from .shim import _xr
        a = [_xr(x) for x in a]
        if not any(array.has_wrapped(x) for x in a):
            return real(*a, **k)
        xs = [A(x) for x in a]
        shape = np.broadcast_shapes(*[x.shape for x in xs])
        bs = [np.broadcast_to(x.a, shape).reshape(-1) for x in xs]
        vals = [pyfunc(*v, **k) for v in zip(*bs)]
        if vals and isinstance(vals[0], tuple):
            raise core.Unsupported('np.vectorize with several outputs')
        o = np.empty(len(vals), dtype=object)
        o[:] = vals
        dts = [core_dt(v) for v in vals]
        return SymArray(o.reshape(shape), np.result_type(*dts) if dts else F8)
    return g


def core_dt(v):
    return array.logical(v) if is_sym(v) else np.asarray(v).dtype


def ndenumerate(x):
    if isinstance(x, SymArray):
        return (((ix), x[ix]) for ix in np.ndindex(*x.shape))
    return np.ndenumerate(x)


class UF:
    """a ufunc whose reduce also takes a list of symbolic scalars or arrays"""

    def __init__(self, uf):
        self.__dict__['_uf'] = uf

    def __call__(self, *a, **k):
        return self._uf(*a, **k)

    def reduce(self, x, *a, **k):
        if isinstance(x, (list, tuple)) and array.has_wrapped(x):
            x = A(x)
        return self._uf.reduce(x, *a, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


def install(OVERRIDE):
    OVERRIDE.update({n: UF(getattr(np, n)) for n in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'add', 'multiply', 'maximum', 'minimum')})
    OVERRIDE.update(r_=RC(np.r_, 'r'), c_=RC(np.c_, 'c'), vectorize=vectorize, ndenumerate=ndenumerate)
