"""B02: bin averages, variances and standard deviations."""
from symx.runner import Harness
from checks.common import *
from dolfyn.velocity import VelBinner
import dolfyn


def stats(vals, nanp):
    good = [x for x, p in zip(vals, nanp) if not p]
    if not good:
        return None, None
    mu = sum(good) / len(good)
    return mu, sum((x - mu) * (x - mu) for x in good) / len(good)


def avg(nb, coord):
    def f(cx):
        N = 2 * nb + 1
        ph = [cx.angle('phi%d' % t, 0, 360) for t in range(N)]
        sp = cx.reals('speed', (N,), 0.1, 10)
        z = cx.reals('w', (N,), -10, 10)
        v = cx.array([[sp[t] * cx.cos(ph[t]) for t in range(N)], [sp[t] * cx.sin(ph[t]) for t in range(N)],
                      [z[t] for t in range(N)]], 'float64')
        # missing samples in the vertical component only
        mask = cx.bools('miss', (nb,))
        nanp = [bool(mask[i]) for i in range(nb)] + [False] * (N - nb)
        w = [[v[c, t] for t in range(N)] for c in range(3)]
        for t in range(N):
            if nanp[t]:
                w[2][t] = float('nan')
        p = cx.reals('pressure', (N,), 0, 100)
        ds = dataset(cx, 'vector', coord, cx.array(w, 'float64'), N, fs=2.0)
        ds['pressure'] = xr.DataArray(p.copy(), dims=('time',))
        ds['static'] = xr.DataArray(np.eye(3), dims=('x1', 'x2'))
        ds['vel'].attrs['units'] = 'm s-1'
        keep = ds['vel'].values.copy()
        b = VelBinner(nb, 2.0)
        a = b.do_avg(ds)
        s = b.do_var(ds)
        s2 = b.do_var(ds, names=['pressure'])
        cx.check('names select variables', 'pressure_var' in s2 and 'vel_var' not in s2)
        cx.close('raw data untouched', ds['vel'].values, keep, 0)
        cx.check('dims', a['vel'].dims == ('dir', 'time') and a['vel'].shape == (3, 2) and s['vel_var'].shape == (3, 2))
        cx.equal('dir labels kept', list(a['dir'].values), list(ds['dir'].values))
        cx.equal('dir labels kept: variances', list(s['dir'].values), list(ds['dir'].values))
        cx.check('coordinate system carried over', a.attrs['coord_sys'] == coord and a.attrs['n_bin'] == nb)
        cx.check('units kept', a['vel'].attrs.get('units') == 'm s-1')
        tt = ds['time'].values
        for k in range(2):
            mid = tt[k * nb] + (tt[k * nb + nb - 1] - tt[k * nb]) / 2
            cx.check('bin time is the mean of its samples', abs((a['time'].values[k] - mid) / np.timedelta64(1, 'ns')) <= 2000)
            for c in range(3):
                mu, var = stats(w[c][k * nb:(k + 1) * nb], nanp[k * nb:(k + 1) * nb] if c == 2 else [False] * nb)
                if mu is None:
                    cx.check('all missing -> missing', cx.isnan(arr(a['vel'])[c, k]))
                    cx.check('all missing -> missing variance', cx.isnan(arr(s['vel_var'])[c, k]))
                    continue
                cx.close('average of the good samples', arr(a['vel'])[c, k], mu, 1e-4)
                cx.close('variance of the good samples', arr(s['vel_var'])[c, k], var, 1e-3)
            mu, var = stats([p[i] for i in range(k * nb, (k + 1) * nb)], [False] * nb)
            cx.close('pressure', arr(a['pressure'])[k], mu, 1e-3)
            cx.close('pressure variance', arr(s['pressure_var'])[k], var, 1e-2)
    return Harness('avg_%s_n%d' % (coord, nb), f, bounds='2 bins of %d samples and a remainder, any missing pattern in one component of bin 1' % nb, max_paths=80)


def adcp(cx):
    nb = 2
    v = cx.reals('vel', (4, 2, 4), -10, 10)
    ds = dataset(cx, 'rdi', 'earth', v.copy(), 4, 2)
    a = VelBinner(nb, 1.0).do_avg(ds)
    s = VelBinner(nb, 1.0).do_var(ds, suffix='_v2')
    cx.check('dims', a['vel'].dims == ('dir', 'range', 'time'))
    cx.close('range kept', a['range'].values, ds['range'].values, 0)
    cx.close('range kept: variances', s['range'].values, ds['range'].values, 0)
    for c in range(4):
        for r in range(2):
            for k in range(2):
                x, y = v[c, r, 2 * k], v[c, r, 2 * k + 1]
                cx.close('average per cell', arr(a['vel'])[c, r, k], (x + y) / 2, 1e-5)
                cx.close('variance per cell', arr(s['vel_v2'])[c, r, k], (x - y) * (x - y) / 4, 1e-4)


def large(cx):
    """small fluctuations on a large mean"""
    nb = 4
    v = cx.reals('x', (2 * nb,), -1, 1)
    m = cx.real('mean', 1000, 5000)
    ds = dataset(cx, 'vector', 'earth', cx.array([[0.5] * (2 * nb)] * 3, 'float64'), 2 * nb)
    ds['depth'] = xr.DataArray(cx.array([m + v[i] * 0.1 for i in range(2 * nb)], 'float64'), dims=('time',), coords={'time': ds.time})
    s = arr(VelBinner(nb, 1.0).do_var(ds, names=['depth'])['depth_var'])
    for k in range(2):
        x = [v[k * nb + i] for i in range(nb)]
        mu = cx.nsum(x) / nb
        cx.close('variance about a large mean', s[k], cx.nsum([(q - mu) * (q - mu) for q in x]) / nb / 100, 1e-5)


def ustd(cx):
    """U_std is the standard deviation of the speed"""
    nb = 3
    ph = [cx.angle('phi%d' % t, 0, 360) for t in range(nb)]
    s = [cx.real('s%d' % t, 0.1, 5) for t in range(nb)]
    v = [[s[t] * cx.cos(ph[t]) for t in range(nb)], [s[t] * cx.sin(ph[t]) for t in range(nb)], [0.0] * nb]
    ds = dataset(cx, 'vector', 'earth', cx.array(v, 'float64'), nb)
    a = VelBinner(nb, 1.0).do_avg(ds)
    x = arr(a['U_std'])[0]
    mu = sum(s) / nb
    cx.close('U_std', x * x, sum((q - mu) * (q - mu) for q in s) / nb, 1e-3)
    cx.check('non-negative', x >= 0)


def mismatch(cx):
    v = cx.reals('vel', (3, 4), -10, 10)
    ds = dataset(cx, 'vector', 'earth', v.copy(), 4, fs=2.0)
    b = VelBinner(2, 1.0)
    cx.raises('other sampling rate refused', Exception, b.do_avg, ds)
    cx.raises('other sampling rate refused (var)', Exception, b.do_var, ds)
    b = VelBinner(2, 2.0)
    a = b.do_avg(ds)
    o = b.do_var(ds, a)
    cx.check('results added to the given dataset', o is a and 'vel' in o and 'vel_var' in o)
    cx.raises('inconsistent output refused', AttributeError, VelBinner(4, 2.0).do_avg, ds, a)
    e = dataset(cx, 'vector', 'earth', v[:, :0], 0, fs=2.0)
    cx.raises('empty record refused', Exception, b.do_avg, e)


def lowlevel(cx):
    b = VelBinner(3, 1.0)
    v = cx.reals('x', (7,), -10, 10)
    m, q, s = b.mean(v), b.var(v), b.std(v)
    m2 = b.mean(v, n_bin=2)
    for k in range(2):
        seg = [v[3 * k + i] for i in range(3)]
        mu, var = stats(seg, [0] * 3)
        cx.close('mean', m[k], mu, 1e-5)
        cx.close('var', q[k], var, 1e-4)
        cx.close('std', s[k] * s[k], var, 1e-4)
        cx.check('std sign', s[k] >= 0)
    for k in range(3):
        cx.close('n_bin override', m2[k], (v[2 * k] + v[2 * k + 1]) / 2, 1e-5)
    w = cx.reals('y', (6, 2), -10, 10)
    ma = b.mean(w, axis=0)
    for c in range(2):
        for k in range(2):
            cx.close('other axis', ma[c, k], (w[3 * k, c] + w[3 * k + 1, c] + w[3 * k + 2, c]) / 3, 1e-5)


def anyaxis(cx):
    """bin means of a 3-D array along any of its axes"""
    b = VelBinner(2, 1.0)
    ax = pick(cx, 'axis', -3, 2)
    shp = [3, 2, 3]
    shp[ax % 3] = 4
    v = cx.reals('x', tuple(shp), -10, 10)
    k = v.copy()
    m = b.mean(v, axis=ax)
    # the binned axis comes last, swapped with the last one
    want = np.swapaxes(v, ax, -1)
    cx.check('shape', tuple(m.shape) == tuple(want.shape[:-1]) + (2,))
    if tuple(m.shape) == tuple(want.shape[:-1]) + (2,):
        for ix in np.ndindex(*want.shape[:-1]):
            for q in range(2):
                cx.close('mean of the bin', m[ix + (q,)], (want[ix + (2 * q,)] + want[ix + (2 * q + 1,)]) / 2, 1e-5)
    cx.close('input untouched', v, k, 0)


def harnesses(tier):
    q = tier == 'quick'
    hs = [avg(nb, c) for nb in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6)) for c in ('beam', 'earth')]
    return hs + [Harness('anyaxis', anyaxis, bounds='3x2x3 array with 4 values along any axis'), Harness('adcp', adcp, bounds='4 beams, 2 cells, 2 bins of 2'), Harness('large', large, bounds='2 bins of 4 within 0.1 of any mean 1000..5000'), Harness('ustd', ustd, bounds='one bin of 3, any directions and speeds'),
                 Harness('mismatch', mismatch, bounds='4 samples'), Harness('lowlevel', lowlevel, bounds='7 samples; 6x2 samples')]
