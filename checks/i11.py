"""I11: dual-profile Signature files, and what is attached to the dataset."""
import os
import json
import numpy as np
import xarray as xr
import warnings
from symx.runner import Harness
from checks.common import pick
from checks import swire as W
from checks.i09 import load, when, epoch, same_time, compare
from checks.i10 import File, count


def dual(pattern, sym=((21, 1), (22, 0), (24, 1)), b5=False, ah=True, flag=False, reps=2, cy=('beam', 'XYZ'), bt=False):
    """bursts ('b') and averages ('a') interleaved: two datasets"""
    def f(cx):
        F = File(cx, sym=sym, miavg=2, ai=1)
        fl = ('vel', 'amp', 'corr') + (('ahrs',) if ah else ())
        nb = na = 0
        for i, c in enumerate(pattern * reps):
            if c == 'b':
                F.add(21, i, ens=nb + 1, flags=fl, cy=cy[0], cell=500, blank=20)
                if b5:
                    F.add(24, i, .03, ens=nb + 1)
                if bt:
                    F.add(23, i, .06, ens=nb + 1)
                nb += 1
            else:
                F.add(22, i, .5, ens=na + 1, nc=3, flags=fl, cy=cy[1], cell=1000, blank=30)
                na += 1
        d = F.load(dual_profile=flag)
        cx.check('two', isinstance(d, tuple) and len(d) == 2)
        if not isinstance(d, tuple):
            return
        d1, d2 = d
        count(cx, d1, nb)
        cx.check('averages', d2['time_avg'].shape == (na,))
        F.check(d1, 21)
        F.check(d2, 22)
        for i, x in enumerate(F.x[21]):
            if ah:
                compare(cx, d1, {'mat': x['mat']}, i)
        cx.check('separate', not any('avg' in v for v in d1.variables) and 'vel' not in d2)
        cx.check('frames', d1.attrs['coord_sys'] == dict(beam='beam', XYZ='inst', ENU='earth')[cy[0]]
                 and d2.attrs['coord_sys'] == dict(beam='beam', XYZ='inst', ENU='earth')[cy[1]])
        cx.check('rotate_vars', 'vel' in d1.attrs['rotate_vars'] and 'vel_avg' in d2.attrs['rotate_vars']
                 and 'vel_avg' not in d1.attrs['rotate_vars'] and 'vel' not in d2.attrs['rotate_vars'])
        for k in range(2):
            cx.close('range', d1['range'].values[k], .2 + .5 * (k + 1), 1e-6)
        for k in range(3):
            cx.close('range_avg', d2['range_avg'].values[k], .3 + (k + 1), 1e-6)
        if b5:
            F.check(d1, 24)
        if bt:
            F.check(d1, 23, names=('vel', 'dist', 'fom'))
    return Harness('dual_%s%s%s' % (pattern, '_b5' if b5 else '', ('' if ah else '_noimu') + ('_bt' if bt else '')), f, bounds='%d x %s of bursts and averages' % (reps, pattern))


def dual_matrix(cx):
    """the orientation matrix of the averaging profile"""
    F = File(cx, sym=((22, 2),), miavg=2, ai=1)
    n = dict(b=0, a=0)
    for i, c in enumerate('bbabb'):
        n[c] += 1
        F.add(21 if c == 'b' else 22, i, ens=n[c], flags=('vel', 'amp', 'corr', 'ahrs'))
    d2 = F.load()[1]
    m = F.x[22][0]['mat']
    for j in range(3):
        for k in range(3):
            cx.close('averaging orientation', d2['orientmat'].values[k, j, 0], m[3 * j + k], 1e-5, rel=1e-6)


def dual_rate(cx):
    """the sampling rate of the burst dataset of a dual profile is that of the bursts"""
    sr = pick(cx, 'sr', 1, 4)
    F = File(cx, sym=((21, 2),), sr=sr, miavg=600, ai=1)
    n = dict(b=0, a=0)
    for i, c in enumerate('bbabb'):
        n[c] += 1
        F.add(21 if c == 'b' else 22, i, ens=n[c])
    d1, d2 = F.load()
    cx.check('burst rate', d1.attrs['fs'] == sr)


def user(kind):
    """user data beside the file reach the dataset"""
    def f(cx):
        F = File(cx, sym=(21,))
        for i in range(2):
            F.add(21, i, cy='ENU')
        p = cx.file(cx.mkbytes([r.b for r in F.recs]), name='data.ad2cp')
        with open(p[:-6] + '.userdata.json' if kind == 'plain' else p + '.userdata.json', 'w') as h:
            json.dump({'declination': 30.0, 'lat': 44.5}, h)
        from dolfyn.io import nortek2
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ds = nortek2.read_signature(p, userdata=kind != 'off')
        if kind == 'off':
            cx.check('none', 'declination' not in ds.attrs and 'lat' not in ds.attrs)
            F.check(ds, 21)
            return
        cx.check('attrs', ds.attrs['lat'] == 44.5 and ds.attrs['declination'] == 30)
        c, s = np.cos(np.pi / 6), .5
        for i in range(2):
            x = F.x[21][i]
            for k in range(2):
                e, n = x['vel'][0][k], x['vel'][1][k]
                cx.close('east', ds['vel'].values[0, k, i], c * e + s * n, 1e-3, rel=1e-5)
                cx.close('north', ds['vel'].values[1, k, i], -s * e + c * n, 1e-3, rel=1e-5)
                cx.close('up', ds['vel'].values[2, k, i], x['vel'][2][k], 1e-3, rel=1e-5)
            cx.close('heading', ds['heading'].values[i], x['heading'] + 30, 1e-3)
    return Harness('user_' + kind, f, bounds='2 earth-frame bursts, declination 30')


ROT = [[.36, .48, -.8], [-.8, .6, 0], [.48, .64, .6]]


def turn(orient, cy='XYZ', ah=True, nb=4):
    """a file read and rotated to earth axes"""
    def f(cx):
        import dolfyn
        d2 = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])
        xf = (W.XF4 if nb == 4 else [[1.5774, -.7887, -.7887], [0, -1.366, 1.366], [.3677, .3677, .3677]])
        recs = [W.config(cx, xf=xf)]
        xs = []
        for i in range(2):
            r, x = W.Rec(cx, 'b%d' % i), {}
            fl = W.FLAG['vel'] | (W.FLAG['ahrs'] if ah else 0)
            W.head(cx, r, x, 21, when(i), fl | 15, 2 | W.CY[cy] << 10 | nb << 12, i + 1, sym=False, st=W.status(orient))
            x['vel'] = [[r.i16('v%d_%d' % (b, c)) * 1e-3 for c in range(2)] for b in range(nb)]
            if ah:
                r.pack('9f', *np.array(ROT).ravel()).pack('4f', 1, 0, 0, 0).pack('3f', 1, 2, 3)
            recs.append(W.frame(cx, 21, r))
            xs.append(x)
        ds = load(cx, recs)
        out = dolfyn.rotate2(ds, 'earth', inplace=False)
        R = np.array(ROT, dtype='f4').astype(float) if ah else None
        down = orient == 5
        for i in range(2):
            for c in range(2):
                v = [xs[i]['vel'][b][c] for b in range(nb)]
                if cy == 'beam':
                    v = [sum(xf[a][b] * v[b] for b in range(nb)) for a in range(nb)]
                if down:
                    v = [v[0]] + [-q for q in v[1:]]
                w = v[2] if nb == 3 else (v[2] + v[3]) * .5
                for k in range(2):
                    e = R[k][0] * v[0] + R[k][1] * v[1] + R[k][2] * w
                    cx.close('horizontal', out['vel'].values[k, c, i], e, 5e-3, rel=1e-4)
                for k in range(2, nb):
                    e = R[2][0] * v[0] + R[2][1] * v[1] + R[2][2] * v[k]
                    cx.close('vertical', out['vel'].values[k, c, i], e, 5e-3, rel=1e-4)
        cx.check('labels', list(out['dir'].values)[:2] == ['E', 'N'] and out['dir'].size == nb)
    return Harness('turn_%d_%s%d' % (orient, cy, nb), f, bounds='2 bursts, orientation code %d' % orient)


def harnesses(tier):
    return [dual('bbbabbbabb', reps=1), dual('bbabb', b5=True), dual('abab', reps=1), dual('abbabaab', reps=1), dual('abbabb', cy=('ENU', 'beam')),
            dual('bbbabb', ah=False), dual('bbabb', bt=True, sym=((21, 1), (22, 0), (23, 1))),
            Harness('dual_rate', dual_rate, bounds='one average among bursts, 1..4 Hz'),
         Harness('dual_matrix', dual_matrix, bounds='one average among bursts'),
            user('plain'), user('full'), user('off'),
            turn(4), turn(5), turn(7), turn(4, 'beam'), turn(5, 'beam'), turn(4, 'XYZ', nb=3), turn(5, 'beam', nb=3)]
