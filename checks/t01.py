"""T01: gap filling touches only the gaps it should, and fills them linearly."""
from symx.runner import Harness
import numpy as np
from checks.common import arr, pick
from dolfyn.tools import misc
import dolfyn.tools.misc


def oracle(cx, v, nanp, t, maxgap, extrap):
    """nanp: concrete NaN pattern"""
    n = len(v)
    out = list(v)
    for i in range(n):
        if not nanp[i]:
            continue
        p = next((j for j in range(i, -1, -1) if not nanp[j]), None)
        q = next((j for j in range(i, n) if not nanp[j]), None)
        out[i] = float('nan')
        if p is not None and q is not None:
            if q - p - 1 <= maxgap:
                out[i] = v[p] + (v[q] - v[p]) * (t[i] - t[p]) / (t[q] - t[p])
        elif extrap and p is not None:
            if n - 1 - p <= maxgap:
                out[i] = v[p]
        elif extrap and q is not None:
            if q <= maxgap:
                out[i] = v[q]
    return out


def fill(n, maxgap, extrap, use_t):
    def f(cx):
        v = cx.reals('a', (n,), -10, 10, nan=True)
        nanp = [bool(cx.isnan(v[i])) for i in range(n)]
        t = list(range(n))
        if use_t:
            t = [0.0]
            for i in range(1, n):
                t.append(t[-1] + cx.real('dt%d' % i, 0.1, 3))
        want = oracle(cx, [v[i] for i in range(n)], nanp, t, maxgap, extrap)
        kw = {}
        if maxgap != np.inf:
            kw['maxgap'] = maxgap
        if extrap:
            kw['extrapFlg'] = True
        a = v.copy()
        if use_t:
            r = misc.interpgaps(a, cx.array(t, 'float64'), **kw)
        else:
            r = misc.fillgaps(a, **kw)
        cx.close('filled as specified', r, want, 1e-6)
        cx.close('in place', a, want, 1e-6)
    return Harness('%s_n%d_gap%s%s' % ('interp' if use_t else 'fill', n, maxgap, '_ex' if extrap else ''), f,
                   bounds='%d values, any NaN pattern, maxgap=%s, extrapolation=%s%s' % (
                       n, maxgap, extrap, ', any spacing 0.1..3' if use_t else ''), max_paths=600, validate=10)


def multi(dim, use_t):
    """2-D arrays are filled in place, series by series along `dim`"""
    def f(cx):
        shp = (3, 2) if dim % 2 == 0 else (2, 3)
        v = cx.reals('a', shp, -10, 10, nan=True)
        a = v.copy()
        t = cx.array([0.0, 1.0, 3.0], 'float64')
        if use_t:
            misc.interpgaps(a, t, dim=dim)
        else:
            misc.fillgaps(a, dim=dim)
        for k in range(2):
            s = [v[(i, k) if dim % 2 == 0 else (k, i)] for i in range(3)]
            nanp = [bool(cx.isnan(x)) for x in s]
            want = oracle(cx, s, nanp, [0.0, 1.0, 3.0] if use_t else [0, 1, 2], np.inf, False)
            cx.close('each series on its own', [a[(i, k) if dim % 2 == 0 else (k, i)] for i in range(3)], want, 1e-6)
    return Harness('multi_%s_dim%d' % ('interp' if use_t else 'fill', dim), f, bounds='2 series of 3 values, any NaN pattern')


def cube(use_t):
    """3-D arrays along any axis, with a gap limit and extrapolation"""
    def f(cx):
        dim = pick(cx, 'dim', -3, 2)
        ax = dim % 3
        shp = [2, 1, 2]
        shp[ax] = 4
        mask = [[cx.bool('miss%d%d' % (k, i)) for i in range(4)] if k == 0 else [i == 2 for i in range(4)] for k in range(2)]
        v = cx.reals('a', tuple(shp), -10, 10)
        a = v.copy()
        others = [ix for ix in np.ndindex(*[s for j, s in enumerate(shp) if j != ax])]
        pats = {}
        for q, ix in enumerate(others):
            pats[ix] = [bool(m) for m in mask[0 if q == len(others) - 1 else 1]]
            for i in range(4):
                if pats[ix][i]:
                    j = list(ix)
                    j.insert(ax, i)
                    a[tuple(j)] = float('nan')
        t = [0.0, 1.0, 3.0, 3.5] if use_t else [0, 1, 2, 3]
        kw = dict(dim=dim, maxgap=1, extrapFlg=True)
        if use_t:
            misc.interpgaps(a, cx.array(t, 'float64'), **kw)
        else:
            misc.fillgaps(a, **kw)
        for ix in others:
            js = []
            for i in range(4):
                j = list(ix)
                j.insert(ax, i)
                js.append(tuple(j))
            want = oracle(cx, [v[j] for j in js], pats[ix], t, 1, True)
            cx.close('each series on its own', [a[j] for j in js], want, 1e-6)
    return Harness('cube_%s' % ('interp' if use_t else 'fill'), f, bounds='3-D arrays, any axis, series of 4 values, maxgap 1, extrapolation', max_paths=400, validate=10)


def harnesses(tier):
    n = 6 if tier == 'quick' else 8
    hs = [cube(False), cube(True)]
    for use_t in (False, True):
        for mg in (np.inf, 0, 1, 2, 3, 4):
            for ex in (False, True):
                hs.append(fill(n, mg, ex, use_t))
        for d in (0, 1, -1):
            hs.append(multi(d, use_t))
    return hs
