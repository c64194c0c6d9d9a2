"""C01: masks and gap filling of velocimeter records."""
from symx.runner import Harness
from checks.common import *
from dolfyn.adv import clean
import warnings

T = 1e-4


def da(cx, v, dt=1.0):
    n = v.shape[-1]
    if len(v.shape) == 1:
        return xr.DataArray(v.copy(), dims=('time',), coords={'time': times(n, dt)})
    return xr.DataArray(v.copy(), dims=('dir', 'time'), coords={'dir': ['X', 'Y', 'Z'], 'time': times(n, dt)})


def limits(two):
    def f(cx):
        n = 3
        v = cx.reals('u', (3, n) if two else (n,), -20, 20, nan=True)
        lo, hi = cx.real('lo', -10, -0.1), cx.real('hi', 0.1, 10)
        u = da(cx, v)
        m = clean.range_limit(u, [lo, hi])
        m0 = clean.range_limit(u)
        sh = (3, n) if two else (n,)
        cx.check('shape', tuple(m.shape) == sh)
        for ix in np.ndindex(*sh):
            x = v[ix]
            out = cx.any([cx.isnan(x), x > hi, x < lo])
            ins = cx.all([cx.not_(cx.isnan(x)), x < hi, x > lo])
            cx.check('outside values and missing values flagged', cx.implies(out, m[ix]))
            cx.check('inside values kept', cx.implies(ins, cx.not_(m[ix])))
            cx.check('default range: outside', cx.implies(cx.any([x > 5, x < -5]), m0[ix]))
            cx.check('default range: inside', cx.implies(cx.all([x > -5, x < 5]), cx.not_(m0[ix])))
        cx.close('data untouched', u.values, v, 0)
    return Harness('limits_%d' % (2 if two else 1), f, bounds='3 samples, any values and missing pattern, any limits', max_paths=80)


def spikes(two):
    def f(cx):
        n = 4
        v = cx.reals('u', (3, n) if two else (n,), -20, 20, nan=True)
        th = cx.real('thresh', 0.1, 15)
        u = da(cx, v)
        m = clean.spike_thresh(u, th)
        md = clean.spike_thresh(u)
        sh = (3, n) if two else (n,)
        cx.check('shape', tuple(m.shape) == sh)
        for ix in np.ndindex(*sh):
            if ix[-1] == 0:
                x = v[ix]
                cx.check('first sample within the threshold is kept', cx.implies(cx.all([x < th, x > -th]), cx.not_(m[ix])))
                continue
            x = v[ix] - v[ix[:-1] + (ix[-1] - 1,)]
            for nm, q, t in (('', m, th), ('default: ', md, 10)):
                cx.check(nm + 'jumps flagged', cx.implies(cx.any([x > t, x < -t]), q[ix]))
                cx.check(nm + 'others kept', cx.implies(cx.all([x < t, x > -t]), cx.not_(q[ix])))
                cx.check(nm + 'missing neighbours are no spikes', cx.implies(cx.isnan(x), cx.not_(q[ix])))
        cx.close('data untouched', u.values, v, 0)
    return Harness('spikes_%d' % (2 if two else 1), f, bounds='4 samples, any values and missing pattern, any threshold', max_paths=80)


def vecmask(cx, v, m3, method, deg, npt, maxgap, dt=1.0):
    pass


def poly(cx, deg, n, nm='', dt=1.0):
    c = [cx.real('%sc%d' % (nm, k), -3, 3) for k in range(deg + 1)]
    t0 = n * dt / 2
    return lambda t: cx.nsum([c[k] * (((t * dt - t0) / (n * dt)) ** k) for k in range(deg + 1)])


def fill(method, n, gap, maxgap, npt, deg, dims, dt=1.0):
    """a record that is a polynomial is restored wherever it is cut out"""
    def f(cx):
        s = pick(cx, 'start', 1, n - gap - 1)
        if dims == 1:
            ps = [poly(cx, deg, n, dt=dt)]
        else:
            ps = [poly(cx, deg, n, 'xyz'[i], dt=dt) for i in range(3)]
        true = [[p(t) for t in range(n)] for p in ps]
        # garbage in the masked places
        g = cx.reals('garbage', (dims, gap), -100, 100, nan=False)
        val = [[g[i, t - s] if s <= t < s + gap else true[i][t] for t in range(n)] for i in range(dims)]
        u = da(cx, cx.array(val if dims == 3 else val[0], 'float64'), dt)
        mask = np.zeros((3, n) if dims == 3 else n, dtype=bool)
        mask[..., s:s + gap] = True
        out = clean.clean_fill(u, mask, npt=npt, method=method, maxgap=maxgap)
        a = arr(out)
        cx.check('dims', out.dims == u.dims)
        for i in range(dims):
            nf = 0
            for t in range(n):
                x = a[i, t] if dims == 3 else a[t]
                if s <= t < s + gap:
                    if gap <= maxgap:
                        cx.close('gap is filled with the smooth curve', x, true[i][t], 1e-3)
                    elif cx.isnan(x):
                        nf += 1
                    else:
                        cx.close('filled part of a long gap', x, true[i][t], 1e-3)
                else:
                    cx.close('good samples kept', x, true[i][t], 0)
            if gap > maxgap:
                cx.check('no more than maxgap samples are made up', gap - nf <= maxgap)
    return Harness('fill_%s_%d_gap%d_of_%d_npt%d_%d%s' % (method, n, gap, maxgap, npt, dims, '' if dt == 1 else '_dt'), f,
                   bounds='%d samples of any polynomial of degree %d, one gap of %d anywhere' % (n, deg, gap), max_paths=40)


def separate(method, dims):
    """two gaps, each interpolated from its neighbourhood; ends are left missing"""
    def f(cx):
        n = 12
        v = cx.reals('u', (dims, n), -5, 5)
        gaps = [(0, 1), (4, 5, 6), (9,)]
        m = np.zeros(n, dtype=bool)
        for g in gaps:
            m[list(g)] = True
        u = da(cx, v if dims == 3 else v[0])
        mask = m if dims == 1 else np.tile(m, (3, 1))
        out = clean.clean_fill(u, mask, npt=3, method='linear', maxgap=6)
        a = arr(out)
        for i in range(dims):
            x = lambda t: a[i, t] if dims == 3 else a[t]
            for t in range(n):
                if not m[t]:
                    cx.close('good samples kept', x(t), v[i, t], 0)
            for t in (0, 1):
                cx.check('nothing invented before the first good sample', cx.isnan(x(t)))
            for t, l, r in ((4, 3, 7), (5, 3, 7), (6, 3, 7), (9, 8, 10)):
                cx.close('straight line across the gap', x(t), v[i, l] + (v[i, r] - v[i, l]) * ((t - l) / (r - l)), 1e-5)
    return Harness('separate_%d' % dims, f, bounds='12 samples, gaps at both ends and inside')


def own_gaps(cx):
    """each component has its own mask"""
    n = 6
    v = cx.reals('u', (3, n), -5, 5)
    b = [pick(cx, 'bad%d' % i, 1, 4) for i in range(3)]
    m = np.zeros((3, n), dtype=bool)
    for i in range(3):
        m[i, b[i]] = True
    a = arr(clean.clean_fill(da(cx, v), m, method='linear'))
    for i in range(3):
        for t in range(n):
            cx.close('only the flagged sample of that component changes', a[i, t],
                     (v[i, t - 1] + v[i, t + 1]) / 2 if t == b[i] else v[i, t], 1e-5)


def shared_mask(cx):
    """one flag per time removes all three components"""
    n = 6
    v = cx.reals('u', (3, n), -5, 5)
    b = pick(cx, 'bad', 1, 4)
    m = np.zeros(n, dtype=bool)
    m[b] = True
    a = arr(clean.clean_fill(da(cx, v), m, method='linear'))
    for i in range(3):
        for t in range(n):
            cx.close('all components', a[i, t], (v[i, t - 1] + v[i, t + 1]) / 2 if t == b else v[i, t], 1e-5)


def ensemble(n, w, dims, fs=1, row=False):
    def f(cx):
        two = dims > 1 or row
        v = cx.reals('u', (dims, n), -5, 5, nan=False)
        m = cx.bools('mask', n)
        # symbolic missing pattern in the last two windows, fixed before
        flags = [bool(m[t]) if t >= n - 4 else t % 3 == 1 for t in range(n)]
        mask = np.array(flags)
        u = da(cx, v) if dims > 1 else xr.DataArray(v.copy(), dims=('range', 'time'), coords={'time': times(n)}) if row else da(cx, v[0])
        mk = xr.DataArray(mask if not two else np.tile(mask, (dims, 1)), dims=u.dims)
        out = clean.fill_nan_ensemble_mean(u, mk.values, fs=fs, window=w // fs)
        a = arr(out)
        cx.check('shape', tuple(a.shape) == ((dims, n) if two else (n,)))
        cx.close('input untouched', u.values, v if two else v[0], 0)
        for i in range(dims):
            for t in range(n):
                x = a[i, t] if two else a[t]
                if not flags[t]:
                    cx.close('good samples kept', x, v[i, t], 0)
                    continue
                k = t // w
                ok = [v[i, q] for q in range(k * w, min((k + 1) * w, n)) if not flags[q]]
                if ok:
                    cx.close('mean of the window', x, sum(ok) / len(ok), 1e-5)
                else:
                    cx.check('a window without data stays missing', cx.isnan(x))
    return Harness('ensemble_%d_%d_%d_fs%d%s' % (n, w, dims, fs, '_row' * row), f, bounds='%d samples in windows of %d, any pattern in the last 4' % (n, w), max_paths=40)


def harnesses(tier):
    hs = [limits(False), limits(True), spikes(False), spikes(True)]
    hs += [fill('linear', 8, 2, 6, 12, 1, 1), fill('linear', 8, 2, 6, 2, 1, 3), fill('linear', 9, 4, 2, 3, 1, 1), fill('cubic', 12, 3, 6, 12, 3, 1),
           fill('cubic', 12, 3, 6, 12, 3, 3, 0.25), fill('cubic', 14, 2, 6, 4, 3, 1), fill('cubic', 12, 6, 6, 12, 3, 1), separate('linear', 1), separate('linear', 3)]
    hs += [Harness('own_gaps', own_gaps, bounds='6 samples, one flagged sample per component', max_paths=80),
           Harness('shared_mask', shared_mask, bounds='6 samples')]
    hs += [ensemble(6, 3, 1), ensemble(6, 3, 3), ensemble(7, 3, 1), ensemble(8, 3, 3), ensemble(8, 4, 3, 2), ensemble(9, 4, 1, 2), ensemble(7, 3, 1, row=True), ensemble(6, 3, 1, row=True)]
    hs += [fill('cubic', 20, g, 6, p, 3, 3) for g in (1, 4, 6) for p in (5, 12)] + [ensemble(13, 5, 3), ensemble(11, 4, 3)]
    if tier != 'quick':
        hs += [fill('cubic', 30, g, 6, p, 3, 3) for g in (2, 8) for p in (7, 20)] + [ensemble(21, 5, 3), ensemble(17, 8, 3, 2)]
    return hs
