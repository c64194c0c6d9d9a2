"""C03: quality filters of profiler data: correlation, thresholds, gap filling, smoothed orientation."""
import math
from symx.runner import Harness
from checks.common import *
from checks.c01 import poly
from dolfyn.adp import clean
import dolfyn

TM = TMATS['signature']


def rec(cx, coord, nr=1, n=2, b5=False, nan=False, corr='real', mat=TM, omat=None, h=None):
    nb = mat.shape[0]
    vel = cx.reals('vel', (nb, nr, n), -4, 4, nan=nan)
    ds = dataset(cx, 'signature' if nb == 4 else 'awac', coord, vel.copy(), n, nr=nr, orientation='up')
    beam_mat(cx, ds, mat)
    if omat is not None:
        ds = ds.assign_coords(earth=('earth', ['E', 'N', 'U']), inst=('inst', ['X', 'Y', 'Z']))
        ds['orientmat'] = xr.DataArray(omat, dims=('earth', 'inst', 'time'))
    c = cx.ints('corr', (nb, nr, n), 0, 100, 'uint8') if corr == 'int' else cx.reals('corr', (nb, nr, n), 0, 100)
    a = cx.reals('amp', (nb, nr, n), 0, 120)
    ds['corr'] = xr.DataArray(c.copy(), dims=('beam', 'range', 'time'), attrs={'units': '%'})
    ds['amp'] = xr.DataArray(a.copy(), dims=('beam', 'range', 'time'), attrs={'units': 'dB'})
    v5 = c5 = None
    if b5:
        v5, c5 = cx.reals('v5', (nr, n), -4, 4), cx.reals('c5', (nr, n), 0, 100)
        ds['vel_b5'] = xr.DataArray(v5.copy(), dims=('range', 'time'))
        ds['corr_b5'] = xr.DataArray(c5.copy(), dims=('range', 'time'), attrs={'units': '%'})
        ds['amp_b5'] = xr.DataArray(c5 * 1.0, dims=('range', 'time'))
    return ds, vel, c, a, v5, c5


def omats(n):
    q = []
    for t in range(n):
        h, p = 0.3 + t, 0.2
        H = np.array([[math.cos(h), math.sin(h), 0], [-math.sin(h), math.cos(h), 0], [0, 0, 1]])
        P = np.array([[1, 0, 0], [0, math.cos(p), -math.sin(p)], [0, math.sin(p), math.cos(p)]])
        q.append(H.dot(P))
    return np.moveaxis(np.array(q), 0, -1)


def corrfilt(coord, b5=False, thresh=None, corr='real', inplace=False, nr=1, n=2, mat=TM, nan=False):
    def f(cx):
        th = cx.real('thresh', 5, 95) if thresh == 'sym' else thresh
        ds, vel, c, a, v5, c5 = rec(cx, coord, nr, n, b5, nan, corr, mat, omats(n) if coord in ('earth', 'principal') else None)
        if coord == 'principal':
            ds.attrs['principal_heading'] = 37.0
        nb = mat.shape[0]
        kw = {} if th is None else dict(thresh=th)
        if inplace:
            kw['inplace'] = True
        out = clean.correlation_filter(ds, **kw)
        if inplace:
            cx.check('in place', out is None)
            out = ds
        else:
            cx.close('input velocity untouched', ds['vel'].values, vel, 0)
            cx.close('input correlation untouched', ds['corr'].values, c, 0)
            cx.close('input amplitude untouched', ds['amp'].values, a, 0)
        cx.check('back in the original frame', out.attrs['coord_sys'] == coord and list(out['dir'].values) == list(ds['dir'].values))
        q = 50 if th is None else th
        w = out['vel'].values
        for t in range(n):
            for k in range(nr):
                bad = [c[i, k, t] < q for i in range(nb)]
                good = [c[i, k, t] > q for i in range(nb)]
                for i in range(nb):
                    x, o = w[i, k, t], vel[i, k, t]
                    same = cx.any([cx.all([cx.isnan(x), cx.isnan(o)]), cx.all([cx.not_(cx.isnan(x)), x - o < 1e-6, x - o > -1e-6])])
                    if coord == 'beam':
                        cx.check('beam below the threshold removed', cx.implies(bad[i], cx.isnan(x)))
                        cx.check('beam above it kept', cx.implies(good[i], same))
                    else:
                        # every component that draws on the beam
                        if coord in ('earth', 'principal'):
                            need = list(range(nb))
                        else:
                            need = [b for b in range(nb) if abs(mat[i, b]) > 0]
                        cx.check('components of a removed beam are missing', cx.implies(cx.any([bad[b] for b in need]), cx.isnan(x)))
                        cx.check('velocity with good beams only is kept', cx.implies(cx.all(good), same))
                if b5:
                    x, o = out['vel_b5'].values[k, t], v5[k, t]
                    cx.check('vertical beam removed', cx.implies(c5[k, t] < q, cx.isnan(x)))
                    cx.check('vertical beam kept', cx.implies(c5[k, t] > q, cx.all([cx.not_(cx.isnan(x)), x == o])))
        cx.check('same variables', set(out.data_vars) == set(ds.data_vars))
    return Harness('corr_%s%d%s%s%s%s%s' % (coord, mat.shape[0], '_b5' if b5 else '', '_th' if thresh else '', '_' + corr if corr != 'real' else '', '_inplace' if inplace else '', '_nan' if nan else ''), f,
                   bounds='%d beams, %d cells, %d samples, any velocity and correlation' % (mat.shape[0], nr, n), max_paths=100)


def exceeds(val, thresh):
    def f(cx):
        v = cx.reals('u', (2, 2, 2), -20, 20, nan=True)
        th = cx.real('thresh', 0.1, 15) if thresh else 5
        d = xr.DataArray(v.copy(), dims=('dir', 'range', 'time'), attrs={'units': 'm/s'})
        kw = {}
        if thresh:
            kw['thresh'] = th
        if val is not None:
            kw['val'] = val
        o = clean.val_exceeds_thresh(d, **kw)
        cx.close('input untouched', d.values, v, 0)
        for ix in np.ndindex(2, 2, 2):
            x, y = o.values[ix], v[ix]
            big = cx.any([y > th, y < -th])
            small = cx.all([y < th, y > -th])
            gone = cx.isnan(x) if val is None else cx.all([cx.not_(cx.isnan(x)), x == val])
            cx.check('large values replaced', cx.implies(big, gone))
            cx.check('small values kept', cx.implies(small, cx.all([cx.not_(cx.isnan(x)), x == y])))
            cx.check('missing stays missing', cx.implies(cx.isnan(y), cx.isnan(x)))
        cx.check('dims', o.dims == d.dims and o.attrs == d.attrs)
    return Harness('exceeds%s%s' % ('' if val is None else '_val', '_th' if thresh else ''), f, bounds='8 values, any missing pattern and threshold', max_paths=80)


def gaps(axis, method, n, gap, deg, maxgap=None, uneven=False, dims=('dir', 'range', 'time')):
    """a smooth curve is restored along the requested axis only; the other axis does not leak"""
    def f(cx):
        s = pick(cx, 'start', 1, n - gap - 1)
        m = 2
        tx = np.arange(n) * 1.0
        if uneven:
            tx = np.array([0, 1, 2, 4, 5, 5.5, 6.5, 8, 9, 10, 11, 12.5, 13, 14][:n])
        # depth interpolation works on the index
        pos = tx if axis == 'time' else np.arange(n) * 1.0
        ps = [poly(cx, deg, n, 'ab'[i]) for i in range(m)]
        nanv = float('nan')
        val = [[nanv if (i == 0 and s <= t < s + gap) else ps[i](pos[t]) for t in range(n)] for i in range(m)]
        if axis == 'range':
            arrv = cx.array([[val[i][t] for i in range(m)] for t in range(n)], 'float64')   # range, time
        else:
            arrv = cx.array(val, 'float64')
        tt = (np.datetime64('2020-01-01T00:00:00', 'ns') + (tx * 1e9).astype('int64').astype('timedelta64[ns]')) if axis == 'time' else times(m)
        rr = 1.0 + (tx if axis == 'range' else np.arange(m))
        nt, nr = ('time', 'range') if not uneven else ('time_b5', 'range_b5')
        d = xr.DataArray(arrv.copy(), dims=(nr, nt), coords={nr: rr, nt: tt})
        fn = clean.fillgaps_time if axis == 'time' else clean.fillgaps_depth
        kw = dict(method=method)
        if maxgap:
            kw['maxgap'] = maxgap
        o = fn(d, **kw)
        a = arr(o)
        cx.check('dims', o.dims == d.dims)
        for i in range(m):
            miss = 0
            for t in range(n):
                x = a[t, i] if axis == 'range' else a[i, t]
                if i == 0 and s <= t < s + gap:
                    if maxgap and gap > maxgap and cx.isnan(x):
                        miss += 1
                    else:
                        cx.close('gap filled along its own axis', x, ps[i](pos[t]), 1e-3)
                else:
                    cx.close('other values kept', x, ps[i](pos[t]), 0)
            if i == 0 and maxgap and gap > maxgap:
                cx.check('no more than maxgap values are made up', gap - miss <= maxgap)
    return Harness('gaps_%s_%s_%d_%d%s%s' % (axis, method, n, gap, '_max%d' % maxgap if maxgap else '', '_uneven' if uneven else ''), f,
                   bounds='%d samples of any polynomial of degree %d, gap of %d anywhere' % (n, deg, gap), max_paths=40)


def med3(cx, a, b, c):
    lo = cx.ite(a < b, a, b)
    hi = cx.ite(a < b, b, a)
    m = cx.ite(c < hi, c, hi)
    return cx.ite(lo < m, m, lo)


def orient_hpr(nfilt):
    def f(cx):
        n = 5 if nfilt == 3 else 9
        h, p, r = cx.reals('h', (n,), 10, 350), cx.reals('p', (n,), -30, 30), cx.reals('r', (n,), -30, 30)
        if nfilt != 3:     # one spike in a steady record
            base = [cx.real(k, -20, 20) for k in 'abc']
            sp = pick(cx, 'spike', 3, 5)
            h, p, r = [cx.array([b if t != sp else b + cx.real('s%d' % i, 1, 90) for t in range(n)], 'float64') for i, b in enumerate(base)]
        ds = dataset(cx, 'rdi', 'earth', np.zeros((4, 1, n)), n, nr=1, heading=h.copy(), pitch=p.copy(), roll=r.copy(), orientmat=omats(n), has_imu=0)
        out = clean.medfilt_orient(ds, nfilt) if nfilt != 7 else clean.medfilt_orient(ds)
        cx.check('stale orientation matrix is dropped', 'orientmat' not in out and 'orientmat' in ds)
        for nm, v in (('heading', h), ('pitch', p), ('roll', r)):
            cx.close('input untouched', ds[nm].values, v, 0)
            o = out[nm].values
            cx.check('length', tuple(o.shape) == (n,))
            for t in range(nfilt // 2, n - nfilt // 2):
                if nfilt == 3:
                    cx.close('median of the neighbours', o[t], med3(cx, v[t - 1], v[t], v[t + 1]), 1e-6)
                else:
                    cx.close('single spike removed', o[t], v[0], 1e-6)
    return Harness('orient_hpr_%d' % nfilt, f, bounds='any heading, pitch and roll', max_paths=60)


def orient_q(cx):
    n = 5
    ang = [20.0, 21.0, 80.0, 22.0, 23.0]
    a0 = cx.angle('turn', 20, 80)
    q = cx.array([[cx.cos(a0 / 1)] * n, [0.0] * n, [0.0] * n, [cx.sin(a0 / 1)] * n], 'float64')
    sp = 2
    q[0, sp] = 1.0
    q[3, sp] = 0.0
    ds = dataset(cx, 'signature', 'earth', np.zeros((4, 1, n)), n, nr=1, orientmat=omats(n), has_imu=1)
    ds = ds.assign_coords(q=('q', ['w', 'x', 'y', 'z']))
    ds['quaternions'] = xr.DataArray(q.copy(), dims=('q', 'time'))
    o0 = ds['orientmat'].values.copy()
    out = clean.medfilt_orient(ds, 3)
    cx.close('input untouched', ds['quaternions'].values, q, 0)
    cx.close('input untouched', ds['orientmat'].values, o0, 0)
    w = out['quaternions'].values
    M = out['orientmat'].values
    steady = dolfyn.quaternion2orient(out['quaternions']).values
    for t in range(1, n - 1):
        cx.close('spike of the attitude removed', w[:, t], [cx.cos(a0), 0.0, 0.0, cx.sin(a0)], 1e-6)
        c, s_ = cx.cos(a0), cx.sin(a0)
        c2, s2 = c * c - s_ * s_, 2 * c * s_
        cx.close('orientation matrix follows the filtered attitude', [M[i, j, t] for i in range(3) for j in range(3)], [steady[i, j, t] for i in range(3) for j in range(3)], 1e-6)


def harnesses(tier):
    hs = [corrfilt('beam'), corrfilt('beam', thresh='sym', b5=True), corrfilt('beam', corr='int', inplace=True), corrfilt('beam', thresh=30, nr=2, n=1, mat=TMATS['awac'], nan=True),
          corrfilt('inst', n=1), corrfilt('inst', b5=True, n=1, thresh='sym', inplace=True), corrfilt('earth', n=2), corrfilt('principal', n=1), corrfilt('inst', mat=TMATS['awac'], n=1, corr='int')]
    hs += [exceeds(None, False), exceeds(None, True), exceeds(-9, True), exceeds(0, False)]
    hs += [gaps('time', 'linear', 7, 2, 1), gaps('time', 'cubic', 9, 2, 3), gaps('time', 'linear', 7, 2, 1, uneven=True), gaps('time', 'cubic', 9, 3, 3, uneven=True), gaps('time', 'linear', 8, 3, 1, 2),
           gaps('range', 'linear', 7, 2, 1), gaps('range', 'cubic', 9, 2, 3), gaps('range', 'linear', 7, 2, 1, uneven=True), gaps('range', 'linear', 8, 3, 1, 1)]
    hs += [orient_hpr(3), orient_hpr(5), orient_hpr(7), Harness('orient_q', orient_q, bounds='5 samples, any steady attitude with one bad sample')]
    hs += [corrfilt('beam', nr=3, n=3), corrfilt('earth', n=4, nr=2), gaps('time', 'cubic', 14, 4, 3, uneven=True), gaps('range', 'cubic', 14, 4, 3), gaps('time', 'linear', 12, 5, 1, 3)]
    if tier != 'quick':
        hs += [corrfilt('principal', n=4, nr=3), corrfilt('beam', nr=6, n=4), gaps('time', 'cubic', 13, 5, 3, uneven=True), gaps('range', 'linear', 14, 5, 1, 4)]
    return hs
