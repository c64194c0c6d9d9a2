"""B03: turbulence intensity, TKE and Reynolds stresses of bins."""
from symx.runner import Harness
from checks.common import *
from dolfyn.adv.turbulence import ADVBinner
from dolfyn.velocity import VelBinner
import dolfyn

T = 1e-3


def cov(x, y, detrend):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    c = sum((a - mx) * (b - my) for a, b in zip(x, y)) / n
    if detrend:
        t = [i - (n - 1) / 2 for i in range(n)]
        s = sum(i * i for i in t)
        bx = sum(i * a for i, a in zip(t, x)) / s
        by = sum(i * a for i, a in zip(t, y)) / s
        c = c - bx * by * s / n
    return c


def vec(cx, nb, nbin=2, nan=False):
    N = nb * nbin + 1
    v = cx.reals('vel', (3, N), -5, 5)
    return dataset(cx, 'vector', 'earth', v.copy(), N), v


def tke(nb, detrend):
    def f(cx):
        ds, v = vec(cx, nb)
        b = ADVBinner(nb, 1.0)
        q = b.calc_tke(ds['vel'], detrend=detrend)
        s = b.calc_stress(ds['vel'], detrend=detrend)
        cx.check('dims', q.dims == ('tke', 'time') and q.shape == (3, 2) and s.dims == ('tau', 'time') and s.shape == (3, 2))
        cx.equal('labels', list(q['tke'].values) + list(s['tau'].values), ["upup_", "vpvp_", "wpwp_", "upvp_", "upwp_", "vpwp_"])
        cx.close('raw data untouched', ds['vel'].values, v, 0)
        noise = cx.reals('noise', (3,), 0, 1)
        qn = b.calc_tke(ds['vel'], noise=noise, detrend=detrend)
        for k in range(2):
            seg = [[v[c, k * nb + i] for i in range(nb)] for c in range(3)]
            for c in range(3):
                e = cov(seg[c], seg[c], detrend)
                cx.close('tke component is the variance', arr(q)[c, k], e, T)
                cx.close('noise variance removed', arr(qn)[c, k], e - noise[c] * noise[c], T)
            for i, (a, c) in enumerate(((0, 1), (0, 2), (1, 2))):
                cx.close('stress is the covariance', arr(s)[i, k], cov(seg[a], seg[c], detrend), T)
    return Harness('tke_n%d_%s' % (nb, 'detrend' if detrend else 'demean'), f, bounds='2 bins of %d samples and a remainder, any velocities and noise' % nb)


def inequality(cx):
    """variances are non-negative and bound the covariances"""
    ds, v = vec(cx, 3, 1)
    b = ADVBinner(3, 1.0)
    q = arr(b.calc_tke(ds['vel'], detrend=False))
    s = arr(b.calc_stress(ds['vel'], detrend=False))
    for c in range(3):
        cx.check('variance >= 0', q[c, 0] >= -1e-6)
    # a common offset changes nothing
    k = cx.reals('offset', (3,), -5, 5)
    w = v.copy()
    for c in range(3):
        w[c] = w[c] + k[c]
    ds2 = dataset(cx, 'vector', 'earth', w, 4)
    cx.close('mean flow does not matter (tke)', arr(b.calc_tke(ds2['vel'], detrend=False)), q, T)
    cx.close('mean flow does not matter (stress)', arr(b.calc_stress(ds2['vel'], detrend=False)), s, T)
    g = cx.reals('slope', (3,), -2, 2)
    for c in range(3):
        for t in range(4):
            w[c, t] = w[c, t] + g[c] * t
    ds3 = dataset(cx, 'vector', 'earth', w, 4)
    ds0 = dataset(cx, 'vector', 'earth', v.copy(), 4)
    cx.close('a trend does not matter when detrending (tke)', arr(b.calc_tke(ds3['vel'])), arr(b.calc_tke(ds0['vel'])), T)
    cx.close('a trend does not matter when detrending (stress)', arr(b.calc_stress(ds3['vel'])), arr(b.calc_stress(ds0['vel'])), T)


def missing(cx):
    """missing samples are left out of demeaned statistics"""
    nb = 3
    v = cx.reals('vel', (3, nb), -5, 5)
    m = cx.bools('miss', (nb,))
    bad = [bool(m[i]) for i in range(nb)]
    w = v.copy()
    for t in range(nb):
        if bad[t]:
            w[0, t] = float('nan')
    ds = dataset(cx, 'vector', 'earth', w, nb)
    b = ADVBinner(nb, 1.0)
    q = arr(b.calc_tke(ds['vel'], detrend=False))
    good = [v[0, t] for t in range(nb) if not bad[t]]
    if good:
        cx.close('variance of the good samples', q[0, 0], cov(good, good, False), T)
    else:
        cx.check('nothing to average', cx.isnan(q[0, 0]))
    y = [v[1, t] for t in range(nb)]
    cx.close('other components unaffected', q[1, 0], cov(y, y, False), T)
    z = [v[2, t] for t in range(nb)]
    s = arr(b.calc_stress(ds['vel'], detrend=False))
    cx.close('stresses of complete components unaffected', s[2, 0], cov(y, z, False), T)
    if good:
        mx = sum(good) / len(good)
        for i, o in ((0, y), (1, z)):
            mo = sum(o) / nb
            cx.close('stress over the samples that have both', s[i, 0],
                     sum((v[0, t] - mx) * (o[t] - mo) for t in range(nb) if not bad[t]) / len(good), T)
    else:
        cx.check('no stress without samples', cx.all([cx.isnan(s[0, 0]), cx.isnan(s[1, 0])]))


def ti(detrend):
    def f(cx):
        nb = 3
        U = cx.reals('U', (2 * nb,), 0.5, 5)
        noise = cx.real('noise', 0, 0.2)
        da = xr.DataArray(U.copy(), dims=('time',), coords={'time': times(2 * nb)})
        b = VelBinner(nb, 1.0)
        for k in range(2):
            seg = [U[k * nb + i] for i in range(nb)]
            cx.assume(cov(seg, seg, detrend) >= 0.05)
        t = arr(b.calc_ti(da, noise=noise, detrend=detrend))
        for k in range(2):
            seg = [U[k * nb + i] for i in range(nb)]
            mu = sum(seg) / nb
            x = t[k] * mu
            cx.check('non-negative', t[k] >= 0)
            cx.close('squared: noise-corrected variance over mean squared', x * x, cov(seg, seg, detrend) - noise * noise, T)
    return Harness('ti_%s' % ('detrend' if detrend else 'demean'), f, bounds='2 bins of 3 speeds 0.5..5, noise 0..0.2, variance >= 0.05')


def thresh(cx):
    U = cx.reals('U', (4,), 0.1, 5)
    th = cx.real('thresh', 0.2, 3)
    da = xr.DataArray(U.copy(), dims=('time',), coords={'time': times(4)})
    t = arr(VelBinner(2, 1.0).calc_ti(da, thresh=th))
    for k in range(2):
        mu = (U[2 * k] + U[2 * k + 1]) / 2
        if mu < th - 0.001:
            cx.check('not computed below the threshold', cx.isnan(t[k]))
        elif mu > th + 0.001:
            cx.close('computed above it', t[k] * t[k] * mu * mu, (U[2 * k] - U[2 * k + 1]) * (U[2 * k] - U[2 * k + 1]) / 4, T)


def suite(cx):
    """calc_turbulence gives the same numbers and leaves its input alone"""
    nb = 4
    ph = [cx.angle('phi%d' % t, 0, 360) for t in range(nb)]
    v = cx.array([[cx.cos(p) for p in ph], [cx.sin(p) for p in ph], [1.0, -1.0, 0.5, 0.25]], 'float64')
    ds = dataset(cx, 'vector', 'earth', v.copy(), nb)
    ds.attrs['config'] = 'abc'
    ds.attrs['user_config'] = 'def'
    before = dict(ds.attrs)
    out = dolfyn.adv.api.calc_turbulence(ds, n_bin=nb, fs=1.0)
    b = ADVBinner(nb, 1.0)
    cx.close('tke', arr(out['tke_vec']), arr(b.calc_tke(ds['vel'])), 1e-6)
    cx.close('stress', arr(out['stress_vec']), arr(b.calc_stress(ds['vel'])), 1e-6)
    cx.close('psd', arr(out['psd']), arr(b.calc_psd(ds['vel'], noise=np.array([0, 0, 0]))), 1e-6)
    cx.close('average', arr(out['vel'])[0, 0], sum(v[0, t] for t in range(nb)) / nb, 1e-4)
    cx.check('settings recorded', (out.attrs['n_bin'], out.attrs['n_fft'], out.attrs['n_fft_coh']) == (nb, nb, nb))
    cx.close('raw data untouched', ds['vel'].values, v, 0)
    cx.check('raw attributes untouched', dict(ds.attrs) == before)


T0NS = 1500000000 * 10 ** 9


def bin_times(da, nb, nbin):
    want = [T0NS + int(1e9 * (k * nb + (nb - 1) / 2)) for k in range(nbin)]
    got = [int(t) for t in np.asarray(da['time'].values).astype('datetime64[ns]').astype('int64')]
    return len(got) == nbin and all(abs(a - b) < 1000 for a, b in zip(got, want))


def labels(cx):
    nb = 4
    v = cx.reals('v', (3, 2 * nb), 1, 5)
    ds = dataset(cx, 'vector', 'earth', v.copy(), 2 * nb)
    b = ADVBinner(nb, 1.0)
    one = xr.DataArray(v[0].copy(), dims=('time',), coords={'time': times(2 * nb)})
    cell = xr.DataArray(v[:2].copy(), dims=('range', 'time'), coords={'range': [1.5, 2.5], 'time': times(2 * nb)})
    beam = VelBinner(nb, 1.0)
    for nm, out in (('tke', b.calc_tke(ds['vel'])), ('stress', b.calc_stress(ds['vel'])), ('tke of one component', beam.calc_tke(one)),
                    ('tke of a beam', beam.calc_tke(cell)), ('ti', beam.calc_ti(one))):
        cx.check(nm + ': the time of each bin', bin_times(out, nb, 2))
        cx.check(nm + ': units', out.attrs['units'] == ('% [0,1]' if nm == 'ti' else 'm2 s-2'))
        if nm == 'tke of a beam':
            cx.check('range kept', out.dims == ('range', 'time') and list(out['range'].values) == [1.5, 2.5])
            for r in range(2):
                for k in range(2):
                    seg = [v[r, k * nb + i] for i in range(nb)]
                    cx.close('one variance per cell', arr(out)[r, k], cov(seg, seg, True), T)


def beam_noise(nr, nbin):
    """the noise of a single beam: one number, one per bin, one per cell and bin"""
    def f(cx):
        nb = 2
        N = nb * nbin
        v = cx.reals('v', (nr, N), -5, 5)
        cell = xr.DataArray(v.copy(), dims=('range', 'time'), coords={'range': [1.0 + r for r in range(nr)], 'time': times(N)})
        one = xr.DataArray(v[0].copy(), dims=('time',), coords={'time': times(N)})
        b = VelBinner(nb, 1.0)
        s = cx.real('noise', 0, 1)
        pb = cx.reals('noise_bin', (nbin,), 0, 1)
        pc = cx.reals('noise_cell', (nr, nbin), 0, 1)
        var = [[cov([v[r, k * nb + i] for i in range(nb)], [v[r, k * nb + i] for i in range(nb)], False) for k in range(nbin)] for r in range(nr)]
        for nm, noise, get in (('one noise', s, lambda r, k: s), ('noise per bin', pb.copy(), lambda r, k: pb[k]),
                               ('noise per bin (labelled)', xr.DataArray(pb.copy(), dims=('time',)), lambda r, k: pb[k]),
                               ('noise per cell and bin', pc.copy(), lambda r, k: pc[r, k])):
            q = arr(b.calc_tke(cell, noise=noise, detrend=False))
            for r in range(nr):
                for k in range(nbin):
                    cx.close(nm + ' removed from each variance', q[r, k], var[r][k] - get(r, k) * get(r, k), T)
            if nm != 'noise per cell and bin':
                q = arr(b.calc_tke(one, noise=noise, detrend=False))
                for k in range(nbin):
                    cx.close(nm + ' removed from the variance of one component', q[k], var[0][k] - get(0, k) * get(0, k), T)
        cx.close('raw data untouched', arr(cell), v, 0)
    return Harness('beam_noise_%dx%d' % (nr, nbin), f, bounds='%d cells, %d bins of 2 samples, any velocities, any noise 0..1' % (nr, nbin))


def ti_cells(cx):
    """turbulence intensity of a profile, noise per bin"""
    nb, nr = 2, 2
    U = cx.reals('U', (nr, 2 * nb), 0.5, 5)
    nz = cx.reals('noise', (2,), 0, 0.2)
    da = xr.DataArray(U.copy(), dims=('range', 'time'), coords={'range': [1.5, 2.5], 'time': times(2 * nb)})
    seg = [[[U[r, k * nb + i] for i in range(nb)] for k in range(2)] for r in range(nr)]
    for r in range(nr):
        for k in range(2):
            cx.assume(cov(seg[r][k], seg[r][k], False) >= 0.05)
    out = VelBinner(nb, 1.0).calc_ti(da, noise=xr.DataArray(nz.copy(), dims=('time',)))
    cx.check('range kept', out.dims == ('range', 'time') and list(out['range'].values) == [1.5, 2.5])
    cx.check('the time of each bin', bin_times(out, nb, 2))
    t = arr(out)
    for r in range(nr):
        for k in range(2):
            x = t[r, k] * (sum(seg[r][k]) / nb)
            cx.check('non-negative', t[r, k] >= 0)
            cx.close('squared: noise-corrected variance over mean squared', x * x, cov(seg[r][k], seg[r][k], False) - nz[k] * nz[k], T)


def harnesses(tier):
    q = tier == 'quick'
    return ([tke(n, d) for n in ((3, 4, 6) if q else (3, 4, 5, 6, 8)) for d in (True, False)] + [ti(True), ti(False)] +
            [beam_noise(2, 2), beam_noise(2, 3), beam_noise(3, 2)] + [Harness('ti_cells', ti_cells, bounds='2 cells, 2 bins of 2 speeds 0.5..5, noise 0..0.2 per bin')] +
            [Harness('inequality', inequality, bounds='one bin of 3 samples'), Harness('missing', missing, bounds='one bin of 3, any missing pattern'),
             Harness('thresh', thresh, bounds='2 bins of 2 speeds, any threshold'), Harness('labels', labels, bounds='2 bins of 4 samples, any velocities'), Harness('suite', suite, bounds='one bin of 4 samples')])
