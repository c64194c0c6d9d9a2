"""C02: water surface: range offset, depth from pressure, echo surface, surface masks."""
import math
from symx.runner import Harness
from checks.common import *
from dolfyn.adp import clean


def prof(cx, nb=4, nr=3, n=2, r0=1.0, dr=0.5, vel=None):
    ds = xr.Dataset()
    ds = ds.assign_coords(time=('time', times(n)), beam=('beam', list(range(1, nb + 1))), dir=('dir', DIRS[nb]['earth'] if nb in DIRS else list('abcdefg')[:nb]),
                          range=('range', r0 + dr * np.arange(nr)))
    ds['range'].attrs['units'] = 'm'
    if vel is None:
        vel = cx.reals('vel', (nb, nr, n), -5, 5, nan=True)
    ds['vel'] = xr.DataArray(vel.copy(), dims=('dir', 'range', 'time'), attrs={'units': 'm s-1'})
    ds.attrs = dict(inst_make='Nortek', inst_model='Signature1000', inst_type='ADCP', coord_sys='earth', rotate_vars=['vel'], fs=1.0, n_beams=nb, cell_size=dr, blank_dist=r0 - dr)
    return ds, vel


def offset(cx):
    ds, vel = prof(cx)
    ds = ds.assign_coords(range_b5=('range_b5', [2.0, 2.25, 2.5, 2.75]), range_echo=('range_echo', [0.5, 0.6]))
    ds['vel_b5'] = xr.DataArray(np.zeros((4, 2)), dims=('range_b5', 'time'))
    ds['echo'] = xr.DataArray(np.zeros((2, 2)), dims=('range_echo', 'time'))
    hs = [0.6, -0.25, 3]
    tot = 0
    r0 = {k: ds[k].values.copy() for k in ('range', 'range_b5', 'range_echo')}
    for h in hs:
        clean.set_range_offset(ds, h)
        tot += h
        for k, r in r0.items():
            cx.close('every range coordinate moves by the offset', ds[k].values, r + tot, 1e-9)
            cx.check('units', ds[k].attrs['units'] == 'm')
        cx.close('attribute is the total offset', ds.attrs['h_deploy'], tot, 1e-9)
    cx.close('data untouched', ds['vel'].values, vel, 0)


def pressure(withh):
    def f(cx):
        n = 3
        ds, vel = prof(cx, n=n)
        P = cx.reals('P', (n,), 0, 300)
        Tm = cx.reals('T', (n,), -2, 35)
        S = cx.real('S', 0, 42)
        ds['pressure'] = xr.DataArray(P.copy(), dims=('time',), attrs={'units': 'dbar'})
        ds['temp'] = xr.DataArray(Tm.copy(), dims=('time',))
        if withh:
            ds.attrs['h_deploy'] = h = cx.real('h', -5, 5)
        d0 = ds.copy(deep=True)
        clean.find_surface_from_P(ds, salinity=S)
        clean.find_surface_from_P(d0)
        for q, s in ((ds, S), (d0, 35)):
            for t in range(n):
                rho = 1027 - 0.15 * (Tm[t] - 10) + 0.78 * (s - 35) + 0.0045 * P[t]
                cx.close('density', q['water_density'].values[t], rho, 1e-3)
                x = q['depth'].values[t]
                cx.close('weight of the water column is the pressure', (x - (h if withh else 0)) * 9.81 * rho, P[t] * 1e4, 5)
            cx.close('pressure untouched', q['pressure'].values, P, 0)
            cx.close('temperature untouched', q['temp'].values, Tm, 0)
            cx.check('dims', q['depth'].dims == ('time',) and q['depth'].attrs['units'] == 'm' and q['water_density'].dims == ('time',))
    return Harness('pressure' + ('_h' if withh else ''), f, bounds='3 samples, any pressure 0-300 dbar, temperature and salinity')


def masks(kw, hdep, ints=False, inplace=False, val=None, echo=True, ne=2):
    """cells the side lobe or the surface reaches are removed and no others"""
    def f(cx):
        nb, nr, n = 4, 3, 2
        ds, vel = prof(cx, nb, nr, n, r0=4.0, dr=0.5)
        h = 0.0
        ds.attrs['beam_angle'] = 25
        ang = 25
        if kw:
            ang = 20
            if kw == 'only':
                ds.attrs.pop('beam_angle')
        if hdep:
            h = 0.75
            clean.set_range_offset(ds, h)
        # surface level counted from the bed like the range coordinate
        D = cx.reals('depth', (n,), 1, 12)
        ds['depth'] = xr.DataArray(D.copy(), dims=('time',))
        a = cx.ints('amp', (nb, nr, n), 1, 255) if ints else cx.reals('amp', (nb, nr, n), 1, 120)
        ds['amp'] = xr.DataArray(a.copy(), dims=('beam', 'range', 'time'))
        b5 = cx.reals('b5', (nr, n), -5, 5)
        ds['vel_b5'] = xr.DataArray(b5.copy(), dims=('range', 'time'))
        ds['temp'] = xr.DataArray(np.arange(n) * 1.0, dims=('time',))
        if echo:
            re = np.array([3.0, 4.5, 4.75])[:ne] + h
            ds = ds.assign_coords(range_echo=('range_echo', re))
            e = cx.reals('echo', (ne, n), -100, 100)
            ds['echo'] = xr.DataArray(e.copy(), dims=('range_echo', 'time'))
        kwa = dict(inplace=inplace)
        if kw:
            kwa['beam_angle'] = 20
        if val is not None:
            kwa['val'] = val
        out = clean.nan_beyond_surface(ds, **kwa)
        if inplace:
            cx.check('in place', out is None)
            out = ds
        else:
            cx.close('input untouched', ds['vel'].values, vel, 0)
            cx.close('input untouched', ds['amp'].values, a, 0)
            cx.close('input untouched', ds['vel_b5'].values, b5, 0)

        def gone(x, o, int_=False):
            if int_:
                return x == 0 if val is None else x == val
            return cx.isnan(x) if val is None else x == val

        def same(x, o):
            return cx.any([cx.all([cx.isnan(x), cx.isnan(o)]), cx.all([cx.not_(cx.isnan(x)), cx.not_(cx.isnan(o)), x == o])])
        tol = 1e-6
        for t in range(n):
            for k in range(nr):
                r = 4.0 + 0.5 * k + h
                lim = (D[t] - h) * math.cos(math.radians(ang)) - 0.5 + h
                out_, in_ = r > lim + tol, r < lim - tol
                for i in range(nb):
                    for nm, o, it in (('vel', vel, False), ('amp', a, ints)):
                        x = out[nm].values[i, k, t]
                        cx.check(nm + ' beyond the side-lobe range removed', cx.implies(out_, gone(x, o[i, k, t], it)))
                        cx.check(nm + ' before it kept', cx.implies(in_, same(x, o[i, k, t])))
                x = out['vel_b5'].values[k, t]
                cx.check('vertical beam removed', cx.implies(out_, gone(x, None)))
                cx.check('vertical beam kept', cx.implies(in_, same(x, b5[k, t])))
            if echo:
                for k in range(ne):
                    x = out['echo'].values[k, t]
                    cx.check('echo above the surface removed', cx.implies(re[k] > D[t] + tol, gone(x, None)))
                    cx.check('echo below the surface kept', cx.implies(re[k] < D[t] - tol, same(x, e[k, t])))
        cx.check('other variables', list(out['temp'].values) == [0.0, 1.0])
        cx.close('depth kept', out['depth'].values, D, 0)
    return Harness('mask_%s%s%s%s%s%s%s' % (kw or 'attr', '_h' if hdep else '', '_int' if ints else '', '_inplace' if inplace else '', '' if val is None else '_val', '_echo' if echo else '', '3' if ne == 3 else ''), f,
                   bounds='4 beams, 3 cells, 2 profiles, any data and any depth', max_paths=150)


def noangle(cx):
    ds, vel = prof(cx)
    ds['depth'] = xr.DataArray(cx.reals('depth', (2,), 0.5, 12), dims=('time',))
    cx.raises('beam angle unknown', Exception, clean.nan_beyond_surface, ds)


def surface(nb, nr, peaks, nfilt=None, thresh=None, weak=(), flat=True, kind='int'):
    """profiles whose echoes fall with range and jump up at the surface; behind it the echo stays (flat) or falls"""
    def f(cx):
        n = len(peaks)
        cap = 11 if nr < 20 else 8
        th = 10 if thresh is None else thresh
        up = cx.ints('rise', (n,), th, th + 40)
        lo = cx.ints('small', (n,), th - 5, th - 1)
        base = cx.ints('level', (nb, n), 100, 120)
        j = cx.ints('slope', (nb, n), 1, 3)
        amp = [[[None] * n for _ in range(nr)] for _ in range(nb)]
        for t, p in enumerate(peaks):
            for i in range(nb):
                pk = p[i] if isinstance(p, tuple) else p
                for k in range(nr):
                    if k < pk:
                        a = base[i, t] - j[i, t] * min(k, cap)
                    elif t in weak:
                        a = base[i, t] - j[i, t] * min(pk - 1, cap) + lo[t] if k == pk or flat else amp[i][k - 1][t] - 1
                    else:
                        # the echo maximum: above the level close to the instrument too
                        a = base[i, t] + up[t] if k == pk or flat else amp[i][k - 1][t] - 1
                    amp[i][k][t] = a
        ds, vel = prof(cx, nb, nr, n, r0=2.0, dr=0.5, vel=np.zeros((nb, nr, n)))
        A = cx.array(amp, 'uint8' if kind == 'int' else 'float64')
        ds['amp'] = xr.DataArray(A.copy(), dims=('beam', 'range', 'time'))
        kw = {}
        if thresh is not None:
            kw['thresh'] = thresh
        if nfilt:
            kw['nfilt'] = nfilt
        clean.find_surface(ds, **kw)
        d = ds['depth'].values
        cx.check('one depth per profile', tuple(d.shape) == (n,) and ds['depth'].dims == ('time',))
        cx.close('echo untouched', ds['amp'].values, A, 0)
        r = lambda k: 2.0 + 0.5 * k
        rng = []
        for p in peaks:
            lo_, hi_ = (min(p), max(p)) if isinstance(p, tuple) else (p, p)
            rng.append((r(lo_ - 1), r(hi_)) if flat else (r(lo_ if hi_ < nr - 1 else lo_ - 1), r(nr - 1)))
        for t in range(n):
            if nfilt:
                ws = range(max(t - nfilt // 2, 0), min(t + nfilt // 2 + 1, n))
                if len(ws) == nfilt:
                    a_, b_ = sorted(rng[q][0] for q in ws)[nfilt // 2], sorted(rng[q][1] for q in ws)[nfilt // 2]
                    cx.check('median of the neighbouring surfaces', cx.all([cx.not_(cx.isnan(d[t])), d[t] > a_ - 1e-4, d[t] < b_ + 1e-4]))
            elif t in weak:
                cx.check('no surface where the echo nowhere rises by the threshold', cx.isnan(d[t]))
            else:
                cx.check('surface is at the echo maximum', cx.all([cx.not_(cx.isnan(d[t])), d[t] > rng[t][0] - 1e-4, d[t] < rng[t][1] + 1e-4]))
    return Harness('surface_%d_%d_%s%s%s%s%s' % (nb, nr, '_'.join(''.join(map(str, p)) if isinstance(p, tuple) else str(p) for p in peaks), '_f%d' % nfilt if nfilt else '',
                                             '_t%d' % thresh if thresh else '', '_weak' + ''.join(map(str, weak)) if weak else '', '' if flat else '_fall'), f,
                   bounds='%d beams, %d cells, %d profiles, any levels, slopes and rises in the stated ranges' % (nb, nr, len(peaks)), max_paths=500)


def harnesses(tier):
    hs = [Harness('offset', offset, bounds='three range coordinates, three successive offsets'), pressure(False), pressure(True)]
    hs += [masks('', False), masks('', True), masks('kw', False, echo=False), masks('kw', True, ints=True), masks('only', True, inplace=True),
           masks('', False, inplace=True, val=-9.0), masks('', True, ne=3), Harness('noangle', noangle)]
    hs += [surface(2, 4, (3, 3)), surface(4, 5, (4, 2, 3)), surface(4, 6, ((3, 4, 3, 4), (5, 5, 4, 4)), flat=False), surface(3, 5, (3, 4, 2), weak=(1,)),
           surface(3, 5, (3, 4, 2, 3, 3), weak=(4,), thresh=30), surface(3, 5, (3, 4, 2), weak=(0, 2), kind='float', flat=False), surface(2, 6, (4, 3, 4, 2, 5, 5, 4), nfilt=3),
           surface(2, 300, (280,), flat=False)]
    hs += [surface(4, 8, (6, 5, 7, 3, 2, 4), weak=w, flat=fl) for w in ((), (0, 5), (2, 3)) for fl in (True, False)]
    if tier != 'quick':
        hs += [surface(4, 12, (6, 9, 7, 3, 11, 4, 8, 5), weak=(1, 6), flat=fl) for fl in (True, False)]
    return hs
