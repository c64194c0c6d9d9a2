"""B04: auto- and cross-covariance of bins, integral scale."""
from symx.runner import Harness
from checks.common import *
from checks.b03 import bin_times
from dolfyn.velocity import VelBinner
from dolfyn.adv.turbulence import ADVBinner

T = 1e-3


def da(x):
    return xr.DataArray(x.copy(), dims=('time',), coords={'time': times(x.shape[-1])})


def acov(nb, nbin, override):
    def f(cx):
        N = nb * nbin
        x = cx.reals('x', (N,), -5, 5)
        b = VelBinner(nb if not override else 2 * nb, 1.0)
        c = b.calc_acov(da(x), **(dict(n_bin=nb) if override else {}))
        a = arr(c)
        cx.check('shape', tuple(a.shape) == (nbin, nb // 4))
        cx.equal('lags', list(c['lag'].values), list(range(nb // 4)))
        for k in range(nbin):
            seg = [x[k * nb + i] for i in range(nb)]
            mu = sum(seg) / nb
            for L in range(nb // 4):
                def side(s):
                    return sum((seg[i] - mu) * x[k * nb + i + s * L] for i in range(nb))
                if k == 0:
                    if nbin > 1:
                        cx.close('first bin: forward lags', a[k, L], side(1), T)
                elif k == nbin - 1:
                    cx.close('last bin: backward lags', a[k, L], side(-1), T)
                else:
                    cx.close('inner bins: mean of both sides', a[k, L], (side(1) + side(-1)) / 2, T)
            cx.close('zero lag is the bin variance times n', a[k, 0], sum((s - mu) * (s - mu) for s in seg), T)
        cx.check('labels', bin_times(c, nb, nbin) and c['lag'].attrs['units'] == 'timestep')
        off = cx.real('offset', -5, 5)
        a2 = arr(b.calc_acov(da(x + off), **(dict(n_bin=nb) if override else {})))
        cx.close('the mean level does not matter', a2, a, T)
    return Harness('acov_n%d_b%d%s' % (nb, nbin, '_override' if override else ''), f, bounds='%d bins of %d values' % (nbin, nb))


def xcov(nb, override, N=None):
    def f(cx):
        M = N or 2 * nb
        x = cx.reals('x', (M,), -5, 5)
        y = cx.reals('y', (M,), -5, 5)
        b = VelBinner(nb if not override else nb + 1, 1.0)
        kw = dict(n_bin=nb) if override else {}
        c = arr(b.calc_xcov(da(x), da(y), **kw))
        d = arr(b.calc_xcov(da(y), da(x), **kw))
        cx.check('shape', tuple(c.shape) == (M // nb, 1))
        z = b.calc_xcov(da(x), da(y), **kw)
        cx.check('labels', bin_times(z, nb, M // nb) and list(z['dt'].values) == [0] and z['dt'].attrs['units'] == 'timestep')
        for k in range(M // nb):
            sx = [x[k * nb + i] for i in range(nb)]
            sy = [y[k * nb + i] for i in range(nb)]
            mx, my = sum(sx) / nb, sum(sy) / nb
            cx.close('covariance times n', c[k, 0], sum((p - mx) * (q - my) for p, q in zip(sx, sy)), T)
            cx.close('symmetric', d[k, 0], c[k, 0], T)
    return Harness('xcov_n%d%s%s' % (nb, '_override' if override else '', '_l%d' % N if N else ''), f, bounds='2 bins of %d pairs' % nb)


def lags(cx):
    """npt=3: the middle value is zero lag, neighbours one step either way"""
    nb = 3
    x = cx.reals('x', (9,), -5, 5)
    y = cx.reals('y', (9,), -5, 5)
    c = arr(VelBinner(nb, 1.0).calc_xcov(da(x), da(y), npt=3))
    sy = [y[3 + i] for i in range(3)]
    my = sum(sy) / 3
    for j, L in enumerate((-1, 0, 1)):
        cx.close('lag %d' % L, c[1, j], sum((sy[i] - my) * x[3 + i + L] for i in range(3)), T)


def rows(cx):
    """records of several components or depth cells: each row by itself"""
    nb = 8
    v = cx.reals('v', (3, 2 * nb), -5, 5)
    w = cx.array([[-2.0, 1.0, 0.5, 3.0, -1.5, 2.5, 0.25, -3.0, 1.75, 0.5, -1.0, 2.0, -0.75, 1.25, 2.25, -2.5][(i + 5 * r) % 16] for r in range(3) for i in range(16)], 'float64').reshape((3, 16))
    def d(a):
        return xr.DataArray(a.copy(), dims=('range', 'time'), coords={'range': [1.0, 2.0, 3.0], 'time': times(2 * nb)})
    b = VelBinner(nb, 1.0)
    c, x = b.calc_acov(d(v)), b.calc_xcov(d(v), d(w), npt=1)
    cx.check('dimensions', c.dims == ('range', 'time', 'lag') and x.dims == ('range', 'time', 'dt') and
             tuple(c.shape) == (3, 2, 2) and tuple(x.shape) == (3, 2, 1) and list(c['range'].values) == [1, 2, 3] == list(x['range'].values))
    for r in range(3):
        for k in range(2):
            s, t = [v[r, k * nb + i] for i in range(nb)], [w[r, k * nb + i] for i in range(nb)]
            m, n = sum(s) / nb, sum(t) / nb
            for L in range(2):
                sg = 1 if k == 0 else -1
                cx.close('row: autocovariance', arr(c)[r, k, L], sum((s[i] - m) * v[r, k * nb + i + sg * L] for i in range(nb)), T)
            cx.close('row: cross-covariance', arr(x)[r, k, 0], sum((p - m) * (q - n) for p, q in zip(s, t)), T)


def normed(cx):
    nb = 3
    x = cx.reals('x', (nb,), -5, 5)
    k = cx.real('gain', 0.5, 3)
    o = cx.real('offset', -3, 3)
    s = -1 if cx.bool('negative') else 1
    mx = cx.nsum([x[i] for i in range(nb)]) / nb
    cx.assume(cx.nsum([(x[i] - mx) * (x[i] - mx) for i in range(nb)]) >= 0.1)
    c = arr(VelBinner(nb, 1.0).calc_xcov(da(x), da(x * (k * s) + o), normed=True))
    cx.close('correlation of a line is +-1', c[0, 0], float(s), 1e-3)


def lint(cx):
    n = 5
    a = cx.reals('acov', (1, 1, n), -2, 2)
    U = cx.real('U', 0.1, 4)
    fs = 4.0
    for c in range(1):
        cx.assume(a[c, 0, 0] >= 0.5)
        for i in range(1, n):
            r = a[c, 0, i] - a[c, 0, 0] * 0.36787944117
            cx.assume(cx.any([r > 0.001, r < -0.001]))
    ac = xr.DataArray(a.copy(), dims=('dir', 'time', 'lag'), coords={'dir': ['E'], 'time': times(1), 'lag': np.arange(n)})
    um = xr.DataArray(cx.array([U], 'float64'), dims=('time',), coords={'time': times(1)})
    L = arr(ADVBinner(8, fs).calc_L_int(ac, um))
    for c in range(1):
        below = [bool(a[c, 0, i] <= a[c, 0, 0] * 0.36787944117) for i in range(n)]
        want = below.index(True) if True in below else 0
        cx.close('first lag below 1/e, as a length', L[c, 0], U * want / fs, 1e-4)


def harnesses(tier):
    q = tier == 'quick'
    hs = [acov(8, 3, False), acov(8, 2, False), acov(8, 2, True), acov(12, 3, False)]
    hs += [acov(16, 3, False), acov(8, 4, True)]
    if not q:
        hs += [acov(24, 5, False), acov(12, 4, True)]
    return hs + [xcov(3, False), xcov(4, False), xcov(3, True), xcov(7, False, 9),
                 Harness('lags', lags, bounds='3 bins of 3, 3 lags'), Harness('rows', rows, bounds='3 rows of 2 bins of 8'), Harness('normed', normed, bounds='3 values, any line'),
                 Harness('lint', lint, bounds='one component, 5 lags', max_paths=600)]
