"""A01: vertical shear of profiler velocities."""
from symx.runner import Harness
from checks.common import *
from dolfyn.adp.turbulence import ADPBinner

STY = {'first': (1, 0), 'centered': (1, 1), 'centered_extended': (0, 0)}


def prof(cx, v, dr=0.5, r0=2.0):
    nb, nr, n = v.shape
    return xr.DataArray(v.copy(), dims=('dir', 'range', 'time'), coords={'dir': ['E', 'N', 'U', 'err'][:nb], 'range': r0 + dr * np.arange(nr), 'time': times(n)}, attrs={'units': 'm s-1'})


def shear(style, nr, orient=None, how='init'):
    """exact differences for any profile; output on the cells it belongs to"""
    def f(cx):
        dr, n = 0.5, 2
        v = cx.reals('vel', (3, nr, n), -4, 4)
        da = prof(cx, v, dr)
        kw = {}
        if style != 'centered_extended':
            kw['diff_style'] = style
        if how == 'init' and orient:
            kw['orientation'] = orient
        b = ADPBinner(4, 2.0, **kw)
        s = -1 if orient == 'down' else 1
        du = b.calc_dudz(da, orientation=orient) if how == 'arg' else b.calc_dudz(da)
        dv, dw, s2 = b.calc_dvdz(da), b.calc_dwdz(da), b.calc_shear2(da)
        r = 2.0 + dr * np.arange(nr)
        cut = {'first': (1, nr), 'centered': (1, nr - 1), 'centered_extended': (0, nr)}[style]
        for o in (du, dv, dw, s2):
            cx.check('cells', o.dims == ('range', 'time') and len(o['range']) == cut[1] - cut[0] and bool(np.allclose(o['range'].values, r[cut[0]:cut[1]])))
            cx.check('times', bool((o['time'].values == da['time'].values).all()))
        for t in range(n):
            for k in range(cut[0], cut[1]):
                a, z = {'first': (k - 1, k), 'centered': (k - 1, k + 1), 'centered_extended': (max(k - 1, 0), min(k + 1, nr - 1))}[style]
                d = [(v[c, z, t] - v[c, a, t]) / ((z - a) * dr) for c in range(3)]
                j = k - cut[0]
                cx.close('du/dz', arr(du)[j, t], s * d[0], 1e-9)
                cx.close('dv/dz', arr(dv)[j, t], d[1], 1e-9)
                cx.close('dw/dz', arr(dw)[j, t], d[2], 1e-9)
                cx.close('shear squared', arr(s2)[j, t], d[0] * d[0] + d[1] * d[1], 1e-6)
        cx.close('velocity untouched', da.values, v, 0)
    return Harness('shear_%s_%d%s' % (style, nr, '_%s_%s' % (orient, how) if orient else ''), f, bounds='%d cells, 2 samples, any velocities' % nr)


def linear(style):
    """a linear profile has its slope everywhere, whatever cell size and first cell"""
    def f(cx):
        nr = 5
        a, c = cx.reals('slope', (3,), -2, 2), cx.reals('offset', (3,), -2, 2)
        for dr in (0.25, 1.0, 3.0):
            r = 0.7 + dr * np.arange(nr)
            v = cx.array([[[c[i] + a[i] * float(x)] for x in r] for i in range(3)], 'float64')
            b = ADPBinner(4, 2.0, diff_style=style)
            da = prof(cx, v, dr, 0.7)
            for o, i in ((b.calc_dudz(da), 0), (b.calc_dvdz(da), 1), (b.calc_dwdz(da), 2)):
                for x in arr(o)[:, 0]:
                    cx.close('slope', x, a[i], 1e-6)
    return Harness('linear_%s' % style, f, bounds='any linear profile of 5 cells, three cell sizes')


def harnesses(tier):
    hs = [shear(s, n) for s in STY for n in (3, 5)] + [shear('centered_extended', 4, 'down', 'init'), shear('first', 4, 'down', 'arg'), shear('centered', 4, 'up', 'arg')]
    hs += [linear(s) for s in STY]
    hs += [shear(s, 12) for s in STY]
    if tier != 'quick':
        hs += [shear(s, n) for s in STY for n in (20, 40)]
    return hs
