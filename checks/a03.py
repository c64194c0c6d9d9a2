"""A03: Doppler noise and dissipation rates of profilers."""
import math
import warnings
from symx.runner import Harness
from checks.common import *
from checks.s04 import FR
from dolfyn.adp.turbulence import ADPBinner


def psd2(p, units, freq=FR):
    da = xr.DataArray(p.copy(), dims=('time', 'freq'), coords={'time': times(p.shape[0]), 'freq': freq})
    da['freq'].attrs['units'] = units
    return da


def umag(cx, U):
    return xr.DataArray(cx.array(U, 'float64'), dims=('time',), coords={'time': times(len(U))})


def noise(units, pct):
    """sqrt of the mean of S f over the top of the spectrum"""
    def f(cx):
        fs = 8.0
        fr = np.array([1.0, 2.0, 2.5, 3.0, 3.3, 3.5, 3.9, 4.0]) * (1 if units == 'Hz' else 2 * math.pi)
        p = cx.reals('psd', (2, len(fr)), 0.001, 1)
        da = psd2(p, units, fr)
        kw = {} if pct == 0.8 else dict(pct_fN=pct)
        o = ADPBinner(16, fs).calc_doppler_noise(da, **kw)
        lo = pct * fs / 2 * (1 if units == 'Hz' else 2 * math.pi)
        sel = [i for i in range(len(fr)) if fr[i] >= lo - 1e-9]
        cx.check('dims', o.dims == ('time',) and bool((o['time'].values == da['time'].values).all()) and o.attrs['units'] == 'm s-1')
        for t in range(2):
            x = arr(o)[t]
            cx.check('not negative', x >= 0)
            cx.close('noise variance', x * x, sum(p[t, i] * float(fr[i]) for i in sel) / len(sel), 1e-5)
        cx.close('spectrum untouched', da.data, p, 0)
        cx.raises('not two-dimensional', Exception, ADPBinner(16, fs).calc_doppler_noise, da.isel(time=0))
    return Harness('noise_%s_%g' % (units[:2], pct), f, bounds='two spectra of 8 frequencies, %s' % units)


def lt83(units, rng):
    def f(cx):
        p = cx.reals('psd', (2, len(FR)), 0.01, 2)
        U = cx.reals('U', (2,), 0.1, 3)
        da = psd2(p, units)
        e = arr(ADPBinner(16, 8.0).calc_dissipation_LT83(da, umag(cx, list(U)), freq_range=list(rng)))
        sel = [i for i in range(len(FR)) if rng[0] < FR[i] < rng[1]]
        k = 2 * math.pi if units == 'Hz' else 1.0
        for t in range(2):
            m = sum(p[t, i] * float(FR[i]) ** (5 / 3) for i in sel) / len(sel) / 0.5
            x = e[t] * U[t] / k
            cx.check('not negative', e[t] >= 0)
            cx.close('standard formula', x * x, m * m * m, 0, rel=1e-4)
        cx.close('spectrum untouched', da.data, p, 0)
    return Harness('lt83_%s_%d' % (units[:2], rng[0]), f, bounds='two spectra of 7 frequencies, %s' % units)


def kolmogorov(units, noisy=False):
    """an exact -5/3 spectrum (with white noise) gives back the dissipation rate it was made with"""
    def f(cx):
        e3 = cx.real('epsilon^(1/3)', 0.1, 0.5)
        u3 = cx.real('U^(1/3)', 0.5, 1.4) if not noisy else 1.0
        fs = 8.0
        k = (2 * math.pi) ** (-2 / 3) if units == 'Hz' else 1.0
        nyq = fs / 2 if units == 'Hz' else 2 * math.pi * fs / 2
        ns = cx.reals('noise', (2,), 0, 0.2) if noisy else [0.0, 0.0]
        S = cx.array([[0.5 * e3 * e3 * u3 * u3 * (k * float(w) ** (-5 / 3)) + ns[t] * ns[t] / nyq for w in FR] for t in range(2)], 'float64')
        kw = {}
        if noisy:
            kw['noise'] = xr.DataArray(ns.copy(), dims=('time',), coords={'time': times(2)})
        e = arr(ADPBinner(16, fs).calc_dissipation_LT83(psd2(S, units), umag(cx, [u3 * u3 * u3] * 2), freq_range=[4, 12], **kw))
        for t in range(2):
            cx.close('epsilon recovered', e[t], e3 * e3 * e3, 1e-4)
    return Harness('kolmogorov_%s%s' % (units[:2], '_noise' if noisy else ''), f, bounds='any epsilon 1e-3..0.125, %s' % units)


def lt83_refuse(cx):
    p = cx.reals('psd', (2, len(FR)), 0.01, 2)
    b = ADPBinner(16, 8.0)
    cx.raises('three-dimensional spectrum', Exception, b.calc_dissipation_LT83, psd2(p, 'Hz').expand_dims('range'), umag(cx, [1.0, 1.0]))
    cx.raises('frequency range', ValueError, b.calc_dissipation_LT83, psd2(p, 'Hz'), umag(cx, [1.0, 1.0]), freq_range=[1.0])
    cx.raises('noise of another record', Exception, b.calc_dissipation_LT83, psd2(p, 'Hz'), umag(cx, [1.0, 1.0]), noise=np.zeros(3))
    cx.raises('not one beam', Exception, b.calc_dissipation_SF, xr.DataArray(np.zeros((4, 3, 6)), dims=('dir', 'range', 'time')))


def sf(nr, dr, r_range, nb=2, b5=False, r0=1.0, free=None):
    """D(z,r) of any velocities; dissipation and noise from its straight line in r^(2/3)"""
    def f(cx):
        nbin = 2
        v = cx.reals('v', (nr, nb * nbin + 1), -1, 1)
        rd, td = ('range_b5', 'time_b5') if b5 else ('range', 'time')
        da = xr.DataArray(v.copy(), dims=(rd, td), coords={rd: r0 + dr * np.arange(nr), td: times(nb * nbin + 1)})
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e, n, D = ADPBinner(nb, 2.0).calc_dissipation_SF(da, r_range=list(r_range))
        R = int(round(r_range[1] / dr))
        cx.check('dims', e.dims == (rd, td) and tuple(e.shape) == (nr, nbin) and tuple(n.shape) == (nr, nbin) and tuple(D.shape) == (nr, R, nbin))
        cx.check('separations', bool(np.allclose(D['range_SF'].values, dr * np.arange(1, R + 1))))
        for t in range(nbin):
            w = [[v[k, t * nb + q] - sum(v[k, t * nb + j] for j in range(nb)) / nb for q in range(nb)] for k in range(nr)]
            for i in range(1, R + 1):
                for k in range(nr):
                    x = arr(D)[k, i - 1, t]
                    if k < i:
                        cx.check('no cell at that distance', cx.isnan(x))
                    else:
                        cx.close('structure function', x, sum((a - b) * (a - b) for a, b in zip(w[k], w[k - i])) / nb, 1e-6)
        cx.close('velocity untouched', da.values, v, 0)
    return Harness('sf_%d_%g_%g_%g%s' % (nr, dr, r_range[0], r_range[1], '_b5' if b5 else ''), f, bounds='%d cells of %g m, 2 bins of %d samples, any velocities' % (nr, dr, nb), max_paths=60)


def twothirds(nr, dr, r_range):
    """velocities whose structure function is 2.1 (epsilon r)^(2/3) + 2 noise^2 give both back"""
    def f(cx):
        e3 = cx.real('epsilon^(1/3)', 0.05, 0.4)
        sg = 0.1
        # cells with independent fluctuations: give each cell its own samples, so that
        # mean (w_k - w_l)^2 = |w_k|^2 + |w_l|^2 - 2 w_k.w_l is the wanted function of k - l
        m = nr
        G = np.array([[abs(i - j) * dr for j in range(m)] for i in range(m)])
        # w = e3 * a + sg * b with a, b in orthogonal sample spaces
        def embed(D):
            J = np.eye(m) - 1.0 / m
            B = -0.5 * J.dot(D).dot(J)
            l, U = np.linalg.eigh(B)
            return U * np.sqrt(np.maximum(l, 0))
        A = embed(2.1 * G ** (2 / 3))
        Bn = embed(2 * sg ** 2 * (1 - np.eye(m)))
        # +- pairs keep the bin mean zero
        A = np.concatenate([A, -A], 1) / math.sqrt(2)
        Bn = np.concatenate([Bn, -Bn], 1) / math.sqrt(2)
        ns = A.shape[1] + Bn.shape[1]
        s = math.sqrt(ns)
        v = cx.array([[e3 * float(x) * s for x in A[k]] + [float(x) * s for x in Bn[k]] for k in range(m)], 'float64')
        da = xr.DataArray(v.copy(), dims=('range', 'time'), coords={'range': 1.0 + dr * np.arange(nr), 'time': times(ns)})
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e, n, D = ADPBinner(ns, 2.0).calc_dissipation_SF(da, r_range=list(r_range))
        R = int(round(r_range[1] / dr))
        for k in range(nr):
            if k < R:
                cx.check('no estimate without enough cells', cx.isnan(arr(e)[k, 0]))
            else:
                x = arr(e)[k, 0]
                cx.check('not negative', x >= 0)
                cx.close('dissipation rate', x * x, e3 * e3 * e3 * e3 * e3 * e3, 1e-6, rel=1e-3)
                y = arr(n)[k, 0]
                cx.close('noise', y * y, sg ** 2, 1e-5)
    return Harness('twothirds_%d_%g_%g' % (nr, dr, r_range[0]), f, bounds='any dissipation rate 1e-4..0.06, %d cells' % nr, max_paths=60)


def band(cx):
    """only separations inside r_range are fitted"""
    nr, dr, nb = 6, 0.5, 4
    p = cx.real('disturb', 0.1, 2)
    rng = np.random.RandomState(2)
    base = rng.randn(nr, nb)
    out = []
    for k in (0, 1):
        v = base.copy()
        da = xr.DataArray(cx.array([[float(v[i, j]) + (p * (1 if j % 2 else -1) * (-1) ** i if k else 0) for j in range(nb)] for i in range(nr)], 'float64'), dims=('range', 'time'),
                          coords={'range': 1.0 + dr * np.arange(nr), 'time': times(nb)})
        e, n, D = ADPBinner(nb, 2.0).calc_dissipation_SF(da, r_range=[1.0, 1.5])
        r, d = D['range_SF'].values, arr(D)[:, :, 0]
        for i in range(3, nr):
            x1, x2 = 1.0 ** (2 / 3), 1.5 ** (2 / 3)
            y1, y2 = d[i, 1], d[i, 2]
            A = (y2 - y1) / (x2 - x1)
            x = arr(e)[i, 0]
            s = cx.implies(A > 1e-6, cx.not_(cx.isnan(x)))
            cx.check('rising structure functions give an estimate', s)
            if A > 1e-6:
                q = A / 2.1
                cx.close('line through the requested separations', x * x, q * q * q, 1e-6, rel=1e-3)


def slope(cx):
    p = cx.reals('psd', (2, len(FR)), 0.01, 2)
    da = psd2(p, 'Hz')
    m2, b2 = ADPBinner(16, 8.0).check_turbulence_cascade_slope(da, freq_range=[3, 12])
    sel = [i for i in range(len(FR)) if 3 < FR[i] < 12]
    X = [math.log10(float(FR[i])) for i in sel]
    xm = sum(X) / len(X)
    cx.check('one slope per spectrum', tuple(m2.shape) == (2,) and tuple(b2.shape) == (2,))
    for t in range(2):
        Y = [cx.log(p[t, i]) / math.log(10) for i in sel]
        ym = sum(Y) / len(Y)
        want = sum((a - xm) * (c - ym) for a, c in zip(X, Y)) / sum((a - xm) ** 2 for a in X)
        cx.close('slope of the log-log line', arr(m2)[t], want, 1e-6)
        cx.close('intercept', arr(b2)[t], ym - want * xm, 1e-6)


def harnesses(tier):
    hs = [noise('Hz', 0.8), noise('rad s-1', 0.8), noise('Hz', 0.6), lt83('Hz', (4, 10)), lt83('rad s-1', (6.28, 12.57)), kolmogorov('Hz'), kolmogorov('rad s-1'), kolmogorov('Hz', True), kolmogorov('rad s-1', True),
          Harness('refuse', lt83_refuse, bounds='two spectra'), Harness('slope', slope, bounds='two spectra of 7 frequencies')]
    hs += [sf(6, 0.5, (1, 2)), sf(5, 1.0, (1, 3)), sf(8, 0.2, (0.4, 1.2)), sf(5, 0.5, (0.5, 1.5), b5=True), twothirds(6, 0.5, (0.5, 2)), twothirds(6, 0.5, (1, 2)), twothirds(5, 1.0, (1, 3)),
           Harness('band', band, bounds='one-parameter family of 6 cells, 4 samples', max_paths=60)]
    hs += [sf(12, 0.25, (0.5, 2)), sf(6, 0.5, (1, 2), nb=4), twothirds(10, 0.2, (0.4, 1.2))]
    if tier != 'quick':
        hs += [sf(20, 0.25, (0.5, 3)), sf(9, 0.5, (0.5, 2), nb=6), twothirds(16, 0.2, (0.4, 1.6))]
    return hs
