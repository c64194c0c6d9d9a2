"""A02: Reynolds stresses and TKE of profilers from beam variances; friction velocity."""
import math
import warnings
from symx.runner import Harness
from checks.common import *
from dolfyn.adp.turbulence import ADPBinner

# (make, orientation) -> beams (0-based) whose variances are differenced for u'w' and v'w'
ORDER = {('rdi', 'down'): (0, 1, 2, 3), ('rdi', 'up'): (0, 1, 3, 2), ('signature', 'up'): (0, 2, 3, 1), ('signature', 'down'): (2, 0, 3, 1), ('ad2cp', 'up'): (0, 2, 3, 1)}


def raw(cx, kind, v, nr, n, b5=None, pitch=0.0, roll=0.0, angle=25, orient=None, coord='beam'):
    ds = dataset(cx, kind, coord, v.copy(), n, nr=nr, pitch=np.full(n, float(pitch)), roll=np.full(n, float(roll)), heading=np.zeros(n))
    beam_mat(cx, ds, TMATS['signature'])
    if b5 is not None:
        ds['vel_b5'] = xr.DataArray(b5.copy(), dims=('range', 'time'))
    if angle is not None:
        ds.attrs['beam_angle'] = angle
    if orient:
        ds.attrs['orientation'] = orient
    return ds


def var(x):
    m = sum(x) / len(x)
    return sum((q - m) * (q - m) for q in x) / len(x)


def fourbeam(kind, orient, how, noise=None, angle=None, attr=25, rem=0):
    """differences of opposite beam variances over 4 sin cos"""
    def f(cx):
        nr, nb, nbin = 2, 3, 2
        n = nb * nbin + rem
        v = cx.reals('b', (4, nr, n), -2, 2)
        ds = raw(cx, kind, v, nr, n, angle=attr, orient=orient if how == 'attr' else None)
        kw = {}
        bk = {}
        if how == 'init':
            bk['orientation'] = orient
        if how == 'arg':
            kw['orientation'] = orient
            bk['orientation'] = 'down' if orient == 'up' else 'up'
            ds.attrs['orientation'] = bk['orientation']
        if angle:
            kw['beam_angle'] = angle
        ns = None
        if noise == 'da':
            ns = cx.reals('noise', (nbin,), 0, 0.5)
            kw['noise'] = xr.DataArray(ns.copy(), dims=('time',))
        elif noise == 'float':
            x = cx.real('noise', 0, 0.5)
            kw['noise'] = x
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S = ADPBinner(nb, 2.0, **bk).calc_stress_4beam(ds, **kw)
        th = math.radians(angle or attr)
        a, b, c, d = ORDER[kind, orient]
        cx.check('dims', S.dims == ('tau', 'range', 'time') and tuple(S.shape) == (3, nr, nbin) and list(S['tau'].values) == ['upvp_', 'upwp_', 'vpwp_'])
        cx.check('ranges', bool((S['range'].values == ds['range'].values).all()))
        A = arr(S)
        for t in range(nbin):
            for k in range(nr):
                V = [var([v[i, k, t * nb + q] for q in range(nb)]) for i in range(4)]
                den = 4 * math.sin(th) * math.cos(th)
                cx.check("u'v' is not available", cx.isnan(A[0, k, t]))
                cx.close("u'w'", A[1, k, t], (V[a] - V[b]) / den, 1e-5)
                cx.close("v'w'", A[2, k, t], (V[c] - V[d]) / den, 1e-5)
        cx.close('input velocity untouched', ds['vel'].values, v, 0)
    return Harness('four_%s_%s_%s%s%s%s' % (kind, orient, how, '_%s' % noise if noise else '', '_%g' % angle if angle else '', '' if attr == 25 else '_noattr' if not attr else '_attr%g' % attr), f,
                   bounds='2 cells, 2 bins of 3 samples, any beam velocities and noise')


def beams(u, v, w, th):
    """upward looking Signature, beams positive away from the head, x from beam 3 to 1, y from beam 2 to 4"""
    s, c = math.sin(th), math.cos(th)
    return [u * s + w * c, -1 * v * s + w * c, -1 * u * s + w * c, v * s + w * c, w * 1]


def fivebeam(pitch, roll, noise=False, angle=25, orient='up'):
    """moments of the level-frame velocity, to first order in the tilt"""
    def f(cx):
        nr, nb = 1, 3
        th = math.radians(angle)
        # instrument-frame velocities with zero mean
        x = [[cx.real('%s%d' % (k, i), -1, 1) for i in range(nb - 1)] for k in 'uvw']
        x = [q + [-1 * sum(q)] for q in x]
        bm = [[None] * nb for _ in range(5)]
        for t in range(nb):
            for i, b in enumerate(beams(x[0][t], x[1][t], x[2][t], th)):
                bm[i][t] = b
        v = cx.array([[bm[i]] for i in range(4)], 'float64')
        b5 = cx.array([bm[4]], 'float64')
        ds = raw(cx, 'signature', v, nr, nb, b5, pitch, roll, angle, orient)
        # instrument velocities from the same beams
        s, c = math.sin(th), math.cos(th)
        T = np.linalg.inv(np.array([[s, 0, c, 0], [0, -s, 0, c], [-s, 0, c, 0], [0, s, 0, c]]))
        beam_mat(cx, ds, T)
        kw = {}
        ns = 0.0
        if noise:
            ns = cx.real('noise', 0, 0.3)
            kw['noise'] = ns
        B = ADPBinner(nb, 2.0)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tk, st = B.calc_stress_5beam(ds, **kw)
            ds2 = raw(cx, 'signature', v, nr, nb, b5, pitch, roll, angle, orient)
            tk2 = B.calc_stress_5beam(ds2, tke_only=True, **kw)
        m = lambda i, j: sum(a * b for a, b in zip(x[i], x[j])) / nb
        n2 = ns * ns
        # the noise of the beams, propagated
        nu, nw = n2 * (1 - math.cos(th) ** 2) / math.sin(th) ** 2, n2
        uu, vv, ww, uw, vw = m(0, 0) - nu, m(1, 1) - nu, m(2, 2) - nw, m(0, 2), m(1, 2)
        p2, p3 = math.radians(roll), -math.radians(pitch)
        # u'v' is the covariance of the detrended components
        dt = [[q - (sum(y) / nb + (y[2] - y[0]) / 2 * (i - 1)) for i, q in enumerate(y)] for y in (x[0], x[1])]
        uv = sum(a * b for a, b in zip(*dt)) / nb
        e = 1 if orient == 'up' else -1
        A, S = arr(tk), arr(st)
        cx.check('dims', tk.dims == ('tke', 'range', 'time') and st.dims == ('tau', 'range', 'time') and list(tk['tke'].values) == ['upup_', 'vpvp_', 'wpwp_'] and
                 list(st['tau'].values) == ['upvp_', 'upwp_', 'vpwp_'])
        if orient == 'up':
            cx.close("u'^2", A[0, 0, 0], uu + 2 * p3 * uw, 1e-5)
            if pitch == 0:
                cx.close("v'^2", A[1, 0, 0], vv - 2 * p2 * vw, 1e-5)
            cx.close("w'^2", A[2, 0, 0], ww - 2 * p3 * uw + 2 * p2 * vw, 1e-5)
            cx.close("u'v'", S[0, 0, 0], uv, 1e-5)
            cx.close("u'w'", S[1, 0, 0], uw + p3 * (ww - uu) + p2 * uv, 1e-5)
            cx.close("v'w'", S[2, 0, 0], vw + p2 * (vv - ww) - p3 * uv, 1e-5)
        else:   # no tilt: head down
            cx.close("u'^2", A[0, 0, 0], uu, 1e-5)
            cx.close("v'^2", A[1, 0, 0], vv, 1e-5)
            cx.close("w'^2", A[2, 0, 0], ww, 1e-5)
            cx.close("u'w'", S[1, 0, 0], -1 * uw, 1e-5)
            cx.close("v'w'", S[2, 0, 0], vw, 1e-5)
        cx.close('tke alone is the same', tk2.values, tk.values, 1e-9)
        cx.close('input velocity untouched', ds2['vel'].values, v, 0)
    return Harness('five_%g_%g%s_%g_%s' % (pitch, roll, '_noise' if noise else '', angle, orient), f, bounds='one bin of 3 samples of any zero-mean flow, pitch %g roll %g' % (pitch, roll))


def rotated(cx):
    """data in instrument coordinates are brought to beam coordinates first"""
    nb = 3
    v = cx.reals('b', (4, 1, nb), -2, 2)
    T = TMATS['signature']
    w = cx.array([[[sum(float(T[i, j]) * v[j, 0, t] for j in range(4)) for t in range(nb)]] for i in range(4)], 'float64')
    ds = raw(cx, 'signature', w, 1, nb, orient='up', coord='inst')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S = arr(ADPBinner(nb, 2.0).calc_stress_4beam(ds))
    V = [var(list(v[i, 0])) for i in range(4)]
    th = math.radians(25)
    den = 4 * math.sin(th) * math.cos(th)
    cx.close("u'w'", S[1, 0, 0], (V[0] - V[2]) / den, 1e-5)
    cx.close("v'w'", S[2, 0, 0], (V[3] - V[1]) / den, 1e-5)


def refuse(cx):
    v = cx.reals('b', (4, 1, 3), -2, 2)
    B = ADPBinner(3, 2.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cx.raises('no beam angle', Exception, B.calc_stress_4beam, raw(cx, 'signature', v, 1, 3, angle=None, orient='up'))
        cx.raises('no fifth beam', Exception, B.calc_stress_5beam, raw(cx, 'signature', v, 1, 3, orient='up'))
        cx.raises('facing neither up nor down', Exception, B.calc_stress_4beam, raw(cx, 'signature', v, 1, 3, orient='sideways'))
        cx.raises('facing neither up nor down', Exception, B.calc_stress_4beam, raw(cx, 'rdi', v, 1, 3, orient='sideways'))


def ustar(sign, H):
    """a linear stress profile gives back its friction velocity"""
    def f(cx):
        nr, n = 6, 2
        us = cx.reals('ustar', (n,), 0.01, 0.5)
        D = cx.reals('depth', (n,), 8, 30)
        z = 0.5 + np.arange(nr)
        h = [12.0] * n if H else list(D)
        S = cx.array([[sign * us[t] * us[t] * (1 - float(z[k]) / h[t]) if 1 <= k < 5 else 0.3 for t in range(n)] for k in range(nr)], 'float64')
        ds = xr.Dataset(coords={'range': ('range', z), 'time': ('time', times(n))})
        ds['depth'] = xr.DataArray(D.copy(), dims=('time',))
        kw = {'H': 12.0} if H else {}
        o = arr(ADPBinner(4, 2.0).calc_ustar_fit(ds, xr.DataArray(S.copy(), dims=('range', 'time')), **kw))
        for t in range(n):
            cx.check('positive', o[t] > 0)
            cx.close('friction velocity', o[t] * o[t], us[t] * us[t], 1e-5)
    return Harness('ustar_%s%s' % ('neg' if sign < 0 else 'pos', '_H' if H else ''), f, bounds='6 cells, 2 profiles, any friction velocity and depth')


def ustar_inds(cx):
    nr, n = 6, 1
    z = 0.5 + np.arange(nr)
    s = cx.reals('s', (nr,), 0.01, 1)
    ds = xr.Dataset(coords={'range': ('range', z), 'time': ('time', times(n))})
    ds['depth'] = xr.DataArray(np.full(n, 10.0), dims=('time',))
    o = arr(ADPBinner(4, 2.0).calc_ustar_fit(ds, xr.DataArray(cx.array([[-1 * x] for x in s], 'float64'), dims=('range', 'time')), z_inds=slice(2, 4)))
    want = sum(s[k] / (1 - float(z[k]) / 10) for k in (2, 3)) / 2
    cx.close('mean over the requested cells', o[0] * o[0], want, 1e-5)


def harnesses(tier):
    hs = [fourbeam('rdi', 'up', 'attr'), fourbeam('rdi', 'down', 'attr', 'da'), fourbeam('rdi', 'down', 'arg', 'float', rem=2), fourbeam('signature', 'up', 'init', 'da'), fourbeam('signature', 'down', 'attr'),
          fourbeam('signature', 'up', 'arg', angle=20), fourbeam('signature', 'down', 'init', angle=30, attr=None), fourbeam('ad2cp', 'up', 'attr'), fourbeam('signature', 'up', 'attr', angle=27.5), fourbeam('rdi', 'down', 'attr', attr=20.75)]
    hs += [fivebeam(0, 0), fivebeam(0, 0, True), fivebeam(3, 0), fivebeam(0, 4), fivebeam(-2, 3, angle=20), fivebeam(2, 1, angle=22.5), fivebeam(0, 0, orient='down')]
    hs += [Harness('rotated', rotated, bounds='one bin of 3 samples'), Harness('refuse', refuse, bounds='one bin')]
    hs += [ustar(-1, False), ustar(1, False), ustar(-1, True), Harness('ustar_inds', ustar_inds, bounds='6 cells')]
    return hs
