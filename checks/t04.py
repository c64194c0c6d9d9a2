"""T04: the u, v, w, U, U_mag, U_dir, I, tke, ... shortcuts."""
from symx.runner import Harness
from checks.common import *
import dolfyn

FR = ['beam', 'inst', 'earth', 'principal']


def comps(cx):
    n = 2
    v = cx.reals('vel', (3, n), -10, 10, nan=True)
    for coord in ('beam', 'inst', 'earth', 'principal'):
        ds = dataset(cx, 'vector', coord, v.copy(), n)
        d = ds.velds
        for nm, i in (('u', 0), ('v', 1), ('w', 2)):
            x = getattr(d, nm)
            cx.close(nm + ' is component %d' % i, x.values, v[i], 0)
            cx.check('time kept', x.dims == ('time',))
    U = ds.velds.U
    for t in range(n):
        z = arr(U)[t]
        bad = cx.any([cx.isnan(v[0, t]), cx.isnan(v[1, t])])
        if bad:
            continue
        cx.close('U real', z.real, v[0, t], 1e-5)
        cx.close('U imag', z.imag, v[1, t], 1e-5)


def polar(cx, n):
    ph = [cx.angle('phi%d' % t, 0, 360) for t in range(n)]
    s = [cx.real('speed%d' % t, 0.05, 10) for t in range(n)]
    return ph, s


def speed(cx):
    ph, s = polar(cx, 2)
    v = cx.array([[s[t] * cx.cos(ph[t]) for t in range(2)], [s[t] * cx.sin(ph[t]) for t in range(2)], [1.0, -2.0]], 'float64')
    for coord in ('beam', 'earth'):
        ds = dataset(cx, 'vector', coord, v.copy(), 2)
        m = ds.velds.U_mag
        cx.close('speed', m.values, s, 1e-4)
        cx.check('units', m.attrs['units'] == 'm s-1')


def direction(coord):
    def f(cx):
        n = 1
        ph, s = polar(cx, n)
        if cx.sin(ph[0]) > 0:
            pass
        elif cx.sin(ph[0]) == 0:
            pass
        v = [[s[t] * cx.sin(ph[t]) for t in range(n)], [s[t] * cx.cos(ph[t]) for t in range(n)], [0.5] * n]
        if coord != 'earth':
            # streamwise first; clockwise from the first axis
            v = [v[1], [-x for x in v[0]], v[2]]
        ds = dataset(cx, 'vector', coord, cx.array(v, 'float64'), n)
        d = ds.velds.U_dir
        keep = ds['vel'].values.copy()
        for t in range(n):
            x = arr(d)[t]
            cx.check('range', cx.all([x >= 0, x <= 360]))
            cx.close('bearing cos', cx.cos(x), cx.cos(ph[t]), 1e-4)
            cx.close('bearing sin', cx.sin(x), cx.sin(ph[t]), 1e-4)
        cx.check('names its zero direction', d.attrs['units'] == 'degrees_CW_from_' + str(ds['dir'].values[1 if coord == 'earth' else 0]))
        cx.close('velocity untouched', ds['vel'].values, keep, 0)
    return Harness('direction_%s' % coord, f, bounds='any direction, speed 0.05..10')


def turb(cx):
    n = 2
    tv = cx.reals('tke_vec', (3, n), 0, 4)
    st = cx.reals('stress', (3, n), -2, 2)
    ph, s = polar(cx, n)
    v = cx.array([[s[t] * cx.cos(ph[t]) for t in range(n)], [s[t] * cx.sin(ph[t]) for t in range(n)], [0.5] * n], 'float64')
    ds = dataset(cx, 'vector', 'earth', v, n)
    ds['tke_vec'] = xr.DataArray(tv, dims=('tke', 'time'), coords={'tke': ["upup_", "vpvp_", "wpwp_"], 'time': ds.time}, attrs={'units': 'm2 s-2'})
    ds['stress_vec'] = xr.DataArray(st, dims=('tau', 'time'), coords={'tau': ["upvp_", "upwp_", "vpwp_"], 'time': ds.time}, attrs={'units': 'm2 s-2'})
    us = cx.reals('U_std', (n,), 0, 3)
    ds['U_std'] = xr.DataArray(us, dims=('time',), coords={'time': ds.time})
    d = ds.velds
    for nm, a, i in (('upup_', tv, 0), ('vpvp_', tv, 1), ('wpwp_', tv, 2), ('upvp_', st, 0), ('upwp_', st, 1), ('vpwp_', st, 2)):
        cx.close(nm, getattr(d, nm).values, a[i], 0)
    k = arr(d.tke)
    e, I, It = arr(d.E_coh), arr(d.I), arr(d.I_tke)
    for t in range(n):
        q = tv[0, t] + tv[1, t] + tv[2, t]
        cx.close('tke is half the sum', k[t], q / 2, 1e-5)
        cx.close('E_coh squared', e[t] * e[t], st[0, t] * st[0, t] + st[1, t] * st[1, t] + st[2, t] * st[2, t], 1e-4)
        cx.check('E_coh >= 0', e[t] >= 0)
        cx.close('I', I[t] * s[t], us[t], 1e-4)
        cx.close('I_tke', It[t] * It[t] * s[t] * s[t], q, 1e-3)


def turb_adcp(cx):
    """profiles of turbulence vectors with missing components"""
    nr, n = 2, 2
    tv = cx.reals('tke_vec', (3, nr, n), 0, 4)
    st = cx.reals('stress', (3, nr, n), -2, 2)
    miss = cx.bools('missing component', (3,))
    gone = [bool(miss[i]) for i in range(3)]
    nan = float('nan')
    tv = cx.array([[[nan if gone[i] and (r, t) == (1, 0) else tv[i, r, t] for t in range(n)] for r in range(nr)] for i in range(3)], 'float64')
    st = cx.array([[[nan if gone[i] and (r, t) == (0, 1) else st[i, r, t] for t in range(n)] for r in range(nr)] for i in range(3)], 'float64')
    ds = dataset(cx, 'signature', 'earth', cx.array([[[1.0] * n] * nr] * 4, 'float64'), n, nr)
    ds['tke_vec'] = xr.DataArray(tv, dims=('tke', 'range', 'time'), coords={'tke': ["upup_", "vpvp_", "wpwp_"]}, attrs={'units': 'm2 s-2'})
    ds['stress_vec'] = xr.DataArray(st, dims=('tau', 'range', 'time'), coords={'tau': ["upvp_", "upwp_", "vpwp_"]}, attrs={'units': 'm2 s-2'})
    d = ds.velds
    k, e, it = d.tke, d.E_coh, d.I_tke
    cx.check('dimensions', k.dims == e.dims == it.dims == ('range', 'time') and list(e['range'].values) == list(ds['range'].values) and
             list(e['time'].values) == list(ds['time'].values))
    for r in range(nr):
        for t in range(n):
            if any(gone) and (r, t) == (1, 0):
                cx.check('missing component: no TKE', cx.isnan(arr(k)[r, t]))
                cx.check('missing component: no intensity', cx.isnan(arr(it)[r, t]))
            else:
                q = tv[0, r, t] + tv[1, r, t] + tv[2, r, t]
                cx.close('tke is half the sum', arr(k)[r, t], q / 2, 1e-5)
                cx.close('I_tke', arr(it)[r, t] * arr(it)[r, t] * 2, q, 1e-3)
            x = arr(e)[r, t]
            if any(gone) and (r, t) == (0, 1):
                cx.check('missing stress: no E_coh', cx.isnan(x))
            else:
                cx.close('E_coh squared', x * x, st[0, r, t] * st[0, r, t] + st[1, r, t] * st[1, r, t] + st[2, r, t] * st[2, r, t], 1e-4)


def adcp(cx):
    """profiles: same shortcuts per cell"""
    v = cx.reals('vel', (4, 2, 2), -10, 10)
    ds = dataset(cx, 'rdi', 'earth', v.copy(), 2, 2)
    d = ds.velds
    for nm, i in (('u', 0), ('v', 1), ('w', 2)):
        cx.close(nm, getattr(d, nm).values, v[i], 0)
    m = d.U_mag
    cx.check('dims', m.dims == ('range', 'time'))
    for k in range(2):
        for t in range(2):
            x = arr(m)[k, t]
            cx.close('speed squared', x * x, v[0, k, t] * v[0, k, t] + v[1, k, t] * v[1, k, t], 1e-3)


def harnesses(tier):
    return [Harness('comps', comps, bounds='2 samples, any NaN pattern', max_paths=80), Harness('speed', speed, bounds='2 samples, any direction'),
            direction('earth'), direction('inst'), direction('principal'),
            Harness('turb', turb, bounds='2 samples'), Harness('turb_adcp', turb_adcp, bounds='2 cells x 2 samples, any missing components'), Harness('adcp', adcp, bounds='2 cells x 2 samples')]
