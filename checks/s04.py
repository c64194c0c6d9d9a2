"""S04: dissipation rates of ADV spectra and velocities."""
import math
from symx.runner import Harness
from checks.common import *
from dolfyn.adv.turbulence import ADVBinner

FR = np.array([2.0, 5.0, 7.0, 9.0, 11.0, 13.0, 20.0])


def psd3(p, freq, units):
    da = xr.DataArray(p.copy(), dims=('S', 'time', 'freq'), coords={'S': ['Sxx', 'Syy', 'Szz'], 'time': times(p.shape[1]), 'freq': freq})
    da['freq'].attrs['units'] = units
    return da


def umag(cx, U):
    return xr.DataArray(cx.array(U, 'float64'), dims=('time',), coords={'time': times(len(U))})


def lt83(units, rng):
    """epsilon from any spectrum: (mean of S f^(5/3) / alpha)^(3/2) / U"""
    def f(cx):
        p = cx.reals('psd', (3, 1, len(FR)), 0.01, 2)
        U = cx.real('U', 0.1, 3)
        keep = p.copy()
        da = psd3(p, FR, units)
        e = arr(ADVBinner(16, 8.0).calc_epsilon_LT83(da, umag(cx, [U]), freq_range=list(rng)))
        sel = [i for i in range(len(FR)) if rng[0] < FR[i] < rng[1]]
        k = 2 * math.pi if units == 'Hz' else 1.0
        for c in range(3):
            m = sum(p[c, 0, i] * float(FR[i]) ** (5 / 3) for i in sel) / len(sel) / 0.5
            cx.check('not negative', e[c, 0] >= 0)
            x = e[c, 0] * U / k
            cx.close('standard formula', x * x, m * m * m, 0, rel=1e-4)
        cx.close('spectrum untouched', da.data, keep, 0)
    return Harness('lt83_%s_%d' % (units[:2], rng[0]), f, bounds='spectra of 7 frequencies, %s' % units)


def kolmogorov(units):
    """an exact -5/3 spectrum gives back the dissipation rate it was made with"""
    def f(cx):
        e3 = cx.real('epsilon^(1/3)', 0.02, 0.5)
        u3 = cx.real('U^(1/3)', 0.5, 1.4)
        k = (2 * math.pi) ** (-2 / 3) if units == 'Hz' else 1.0
        S = cx.array([[[0.5 * e3 * e3 * u3 * u3 * (k * float(w) ** (-5 / 3)) for w in FR]] * 1] * 3, 'float64')
        e = arr(ADVBinner(16, 8.0).calc_epsilon_LT83(psd3(S, FR, units), umag(cx, [u3 * u3 * u3])))
        for c in range(3):
            cx.close('epsilon recovered', e[c, 0], e3 * e3 * e3, 1e-5)
    return Harness('kolmogorov_%s' % units[:2], f, bounds='any epsilon 8e-6..0.125 and speed 0.125..2.7, %s' % units)


def lt83_noise(units):
    """white noise of the given level, added to the spectrum, is taken out again"""
    def f(cx):
        e3 = cx.real('epsilon^(1/3)', 0.1, 0.5)
        ns = cx.reals('noise', (3, 1), 0, 0.2)
        fs = 8.0
        k = (2 * math.pi) ** (-2 / 3) if units == 'Hz' else 1.0
        nyq = fs / 2 if units == 'Hz' else 2 * math.pi * fs / 2
        S = cx.array([[[0.5 * e3 * e3 * (k * float(w) ** (-5 / 3)) + ns[c, 0] * ns[c, 0] / nyq for w in FR]] for c in range(3)], 'float64')
        for given in (xr.DataArray(ns.copy(), dims=('S', 'time'), coords={'S': ['Sxx', 'Syy', 'Szz'], 'time': times(1)}),):
            e = arr(ADVBinner(16, fs).calc_epsilon_LT83(psd3(S, FR, units), umag(cx, [1.0]), noise=given))
            for c in range(3):
                cx.close('epsilon recovered', e[c, 0], e3 * e3 * e3, 1e-4)
    return Harness('noise_%s' % units[:2], f, bounds='any epsilon 1e-3..0.125, noise up to 0.2 per component, %s' % units)


def lt83_refuse(cx):
    p = cx.reals('psd', (3, 2, len(FR)), 0.01, 2)
    b = ADVBinner(16, 8.0)
    cx.raises('unaveraged speed', Exception, b.calc_epsilon_LT83, psd3(p, FR, 'Hz'), umag(cx, [1.0, 1.0, 1.0]))
    cx.raises('frequency range', ValueError, b.calc_epsilon_LT83, psd3(p, FR, 'Hz'), umag(cx, [1.0, 1.0]), freq_range=[1.0])
    cx.raises('frequency range', ValueError, b.calc_epsilon_LT83, psd3(p, FR, 'Hz'), umag(cx, [1.0, 1.0]), freq_range=3.0)
    cx.raises('not one record', Exception, b.calc_epsilon_SF, xr.DataArray(p[:, 0].copy(), dims=('dir', 'time')), umag(cx, [1.0, 1.0]))


def sf(lags):
    """structure function: median over lags of D(r) r^(-2/3), over 2.1, to the 3/2"""
    def f(cx):
        nb, fs = 6, 8.0
        v = cx.reals('v', (2 * nb,), -1, 1)
        U = [0.5, 1.75]
        e = arr(ADVBinner(nb, fs).calc_epsilon_SF(xr.DataArray(v.copy(), dims=('time',), coords={'time': times(2 * nb)}), umag(cx, U),
                                                  freq_range=[fs / (lags[-1] + 1), fs / lags[0]]))
        for k in range(2):
            x = [v[k * nb + i] for i in range(nb)]
            c = [sum((x[i + L] - x[i]) * (x[i + L] - x[i]) for i in range(nb - L)) / (nb - L) / (L * U[k] / fs) ** (2 / 3) for L in lags]
            cx.check('not negative', e[k] >= 0)
            y = e[k] * e[k] * 2.1 ** 3
            if len(lags) == 1:
                cx.close('2/3 law', y, c[0] * c[0] * c[0], 0, rel=1e-3)
            elif len(lags) == 2:
                m = (c[0] + c[1]) / 2
                cx.close('2/3 law', y, m * m * m, 0, rel=1e-3)
    return Harness('sf_%s' % '_'.join(map(str, lags)), f, bounds='two bins of 6 values, lags %s' % (lags,))


def sf3(lags):
    """with more lags: the median over all of them (one-parameter velocities)"""
    def f(cx):
        nb, fs, U = 8, 8.0, 1.25
        s = cx.real('s', -2, 2)
        base = [0.3, -0.5, 0.9, 0.1, -0.8, 0.6, 0.2, -0.4]
        oth = [0.1, 0.4, -0.2, 0.5, 0.3, -0.6, 0.2, 0.7]
        x = [b + s * o for b, o in zip(base, oth)]
        e = arr(ADVBinner(nb, fs).calc_epsilon_SF(xr.DataArray(cx.array(x, 'float64'), dims=('time',), coords={'time': times(nb)}), umag(cx, [U]),
                                                  freq_range=[fs / (lags[-1] + 1), fs / lags[0]]))[0]
        c = [sum((x[i + L] - x[i]) * (x[i + L] - x[i]) for i in range(nb - L)) / (nb - L) / (L * U / fs) ** (2 / 3) for L in lags]
        n = len(c)
        y = e * e * 2.1 ** 3
        srt = c
        # sort the univariate polynomials (forks over their order)
        for i in range(n):
            for j in range(n - 1 - i):
                if srt[j] > srt[j + 1]:
                    srt[j], srt[j + 1] = srt[j + 1], srt[j]
        m = srt[n // 2] if n % 2 else (srt[n // 2 - 1] + srt[n // 2]) / 2
        cx.close('median over the lags', y, m * m * m, 1e-5, rel=1e-3)
    return Harness('sf_median_%d' % len(lags), f, bounds='one bin of 8 values in a one-parameter family, lags %s' % (lags,), max_paths=60)


def te01(which):
    def f(cx):
        te01_(cx, which)
    return Harness('te01_' + which, f, bounds='two bins, any %s spectrum, fixed mean flow' % which)


def te01_(cx, which):
    """Trowbridge & Elgar from any spectrum, for given mean flows"""
    nb = 4
    rng = np.random.RandomState(3)
    raw = np.array([[1.0, 1.3, 0.8, 1.1, -0.5, -0.4, -0.7, -0.6], [0.4, 0.5, 0.2, 0.1, 0.9, 1.2, 1.0, 1.1], [0.1, 0.0, 0.05, 0.1, 0.02, 0, 0.04, 0.1]])
    ds = dataset(cx, 'vector', 'earth', raw.copy(), 2 * nb)
    avg = np.array([[raw[c, k * nb:(k + 1) * nb].mean() for k in range(2)] for c in range(3)])
    da = dataset(cx, 'vector', 'earth', avg.copy(), 2)
    for d in (ds, da):
        d['vel'].attrs['units'] = 'm s-1'
    tke = np.array([[0.03, 0.02], [0.02, 0.05], [0.004, 0.006]])
    da['tke_vec'] = xr.DataArray(tke, dims=('tke', 'time'), coords={'tke': ["upup_", "vpvp_", "wpwp_"]}, attrs={'units': 'm2 s-2'})
    da['U_std'] = xr.DataArray(np.array([0.15, 0.2]), dims=('time',))
    p = cx.reals('psd', (3, 2, len(FR)), 0.01, 1)
    free = (0, 1) if which == 'horizontal' else (2,)
    p = cx.array([[[p[c, k, i] if c in free else 0.1 + 0.05 * c for i in range(len(FR))] for k in range(2)] for c in range(3)], 'float64')
    da['psd'] = psd3(p, FR, 'rad s-1').assign_coords(time=da['time'])
    da['freq'].attrs['units'] = 'rad s-1'
    e = arr(ADVBinner(nb, 8.0).calc_epsilon_TE01(ds, da))
    x = np.arange(-20, 20, 1e-3)
    sel = [i for i in range(len(FR)) if 6.28 < FR[i] < 12.57]
    for k in range(2):
        U = complex(avg[0, k], avg[1, k])
        I = float(np.asarray(da.velds.I_tke.values)[k])
        up = raw[0, k * nb:(k + 1) * nb] + 1j * raw[1, k * nb:(k + 1) * nb]
        up = up - up.mean()
        up = np.where(up.imag <= 0, -up, up)
        th = np.angle(U) - np.angle(up.mean())
        g = np.cbrt(x ** 2 - 2 / I * np.cos(th) * x + I ** -2.0) * np.exp(-x ** 2 / 2)
        J = float(g.sum() * 1e-3) / math.sqrt(2 * math.pi) * I ** (2 / 3)
        h = sum((p[0, k, i] + p[1, k, i]) * float(FR[i]) ** (5 / 3) for i in sel) / len(sel) / (21 / 55 * 1.5 * J)
        w = sum(p[2, k, i] * float(FR[i]) ** (5 / 3) for i in sel) / len(sel) / (12 / 55 * 1.5 * J)
        # 2 U e = h^1.5 + w^1.5
        fix, var = (w, h) if which == 'horizontal' else (h, w)
        x2 = e[k] * (2 * abs(U)) - float(fix) ** 1.5
        cx.close('mean of the horizontal and vertical estimates', x2 * x2, var * var * var, 1e-3, rel=1e-3)
        cx.check('both estimates are positive', x2 >= -1e-3)


def slope(cx):
    p = cx.reals('psd', (2, len(FR)), 0.01, 2)
    da = xr.DataArray(p.copy(), dims=('time', 'freq'), coords={'time': times(2), 'freq': FR})
    one = xr.DataArray(p[1].copy(), dims=('freq',), coords={'freq': FR})
    b = ADVBinner(16, 8.0)
    m1, b1 = b.check_turbulence_cascade_slope(one, freq_range=[3, 12])
    sel = [i for i in range(len(FR)) if 3 < FR[i] < 12]
    X = [math.log10(float(FR[i])) for i in sel]
    xm = sum(X) / len(X)
    Y = [cx.log(p[1, i]) / math.log(10) for i in sel]
    ym = sum(Y) / len(Y)
    want = sum((a - xm) * (c - ym) for a, c in zip(X, Y)) / sum((a - xm) ** 2 for a in X)
    g = arr(m1)
    cx.close('slope of the log-log line', g[()] if hasattr(g, 'shape') else g, want, 1e-6)
    g = arr(b1)
    cx.close('intercept', g[()] if hasattr(g, 'shape') else g, ym - want * xm, 1e-6)
    m2, b2 = b.check_turbulence_cascade_slope(da, freq_range=[3, 12])
    cx.check('one slope per spectrum', tuple(m2.shape) == (2,) and tuple(b2.shape) == (2,))
    if tuple(m2.shape) == (2,):
        cx.close('same as alone', arr(m2)[1], want, 1e-6)
        cx.close('same as alone', arr(b2)[1], ym - want * xm, 1e-6)


def harnesses(tier):
    q = tier == 'quick'
    return [lt83('Hz', (6.28, 12.57)), lt83('rad s-1', (6.28, 12.57)), lt83('rad s-1', (4, 10)), kolmogorov('Hz'), kolmogorov('rad s-1'),
            lt83_noise('Hz'), lt83_noise('rad s-1'), Harness('refuse', lt83_refuse, bounds='two spectra'),
            sf((1,)), sf((2,)), sf((1, 2)), sf((2, 3)), sf3((1, 2, 3)), sf3((2, 3, 4, 5)), te01('horizontal'), te01('vertical'),
            Harness('slope', slope, bounds='two spectra of 7 frequencies')]
