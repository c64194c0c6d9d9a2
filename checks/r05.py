"""R05: set_declination is absolute, turns earth quantities by the declination,
and leaves instrument-frame data alone."""
from symx.runner import Harness
from checks.rotlib import *

T = 3e-4


def omatds(cx, kind, coord, n=1):
    """dataset with an orientation matrix, as the readers make it"""
    from dolfyn.rotate.vector import _calc_omat
    from dolfyn.rotate import rdi as r_rdi
    nr = None if kind == 'vector' else 2
    ds = build(cx, kind, 'inst', n=n, nr=nr, tilt=80)
    if kind == 'rdi':
        ds['orientmat'] = r_rdi._calc_orientmat(ds)
    elif 'orientmat' not in ds:
        ds['orientmat'] = _calc_omat(ds['time'], ds['heading'], ds['pitch'], ds['roll'],
                                     ds['orientation_down'] if kind == 'vector' else None)
    if coord != 'inst':
        dolfyn.rotate2(ds, coord)
    return ds


def turn(cx, e, n, d):
    """a magnetic (e, n) vector in true coordinates"""
    c, s = cx.cos(d), cx.sin(d)
    return e * c + n * s, n * c - e * s


def setd(kind, coord):
    def f(cx):
        ds = omatds(cx, kind, coord)
        mag = rot(ds, 'earth')
        d = cx.angle('declination', -180, 180)
        out = dolfyn.set_declination(ds, d, inplace=False)
        cx.check('frame kept', out.attrs['coord_sys'] == coord)
        cx.check('attribute', out.attrs['declination'] == d)
        cx.close('heading', out['heading'].values, arr(ds['heading']) + d, 1e-6)
        cx.close('principal heading', out.attrs['principal_heading'], ds.attrs['principal_heading'] + d, 1e-6)
        if coord != 'earth':
            cx.close('velocity untouched in this frame', out['vel'].values, ds['vel'].values, T)
        te = arr(rot(out, 'earth')['vel'])
        me = arr(mag['vel'])
        for ix in np.ndindex(*me.shape[1:]):
            E, N = turn(cx, me[(0,) + ix], me[(1,) + ix], d)
            cx.close('true east', te[(0,) + ix], E, T)
            cx.close('true north', te[(1,) + ix], N, T)
            for k in range(2, me.shape[0]):
                cx.close('vertical', te[(k,) + ix], me[(k,) + ix], T)
        o = arr(out['orientmat'])
        for i in range(3):
            for j in range(3):
                cx.close('orientmat stays orthonormal', sum(o[k, i, 0] * o[k, j, 0] for k in range(3)), int(i == j), 1e-5)
    return Harness('set_%s_%s' % (kind, coord), f, bounds='%s dataset in %s frame, 1 sample, any attitude (|tilt|<=80), '
                   'declination -180..180' % (kind, coord))


def absolute(kind, coord):
    def f(cx):
        ds = omatds(cx, kind, coord)
        d1 = cx.angle('declin1', -180, 180)
        d2 = cx.angle('declin2', -180, 180)
        once = cp(ds)
        dolfyn.set_declination(once, d2)
        twice = cp(ds)
        dolfyn.set_declination(twice, d1)
        dolfyn.set_declination(twice, d2)
        for k in ('vel', 'orientmat', 'heading'):
            cx.close('second call replaces the first: ' + k, twice[k].values, once[k].values, T)
        cx.close('principal heading', twice.attrs['principal_heading'], once.attrs['principal_heading'], 1e-6)
        zero = cp(twice)
        dolfyn.set_declination(zero, 0)
        for k in ('vel', 'orientmat', 'heading'):
            cx.close('zero restores: ' + k, zero[k].values, ds[k].values, T)
    return Harness('absolute_%s_%s' % (kind, coord), f, bounds='two arbitrary declinations in sequence, %s in %s frame' % (kind, coord))


def commute(kind):
    """setting then rotating = rotating then setting"""
    def f(cx):
        ds = omatds(cx, kind, 'inst')
        d = cx.angle('declination', -180, 180)
        for fr in FR:
            if fr == 'principal':
                continue
            a = cp(ds)
            dolfyn.set_declination(a, d)
            dolfyn.rotate2(a, fr)
            b = rot(ds, fr)
            dolfyn.set_declination(b, d)
            cx.close('order irrelevant: ' + fr, a['vel'].values, b['vel'].values, T)
    return Harness('commute_%s' % kind, f, bounds='%s, any attitude, any declination, every frame' % kind)


def pure(cx):
    ds = omatds(cx, 'vector', 'earth')
    d = cx.angle('declination', -180, 180)
    b4 = cp(ds)
    out = dolfyn.set_declination(ds, d, inplace=False)
    for k in ('vel', 'orientmat', 'heading'):
        cx.close('caller unchanged ' + k, ds[k].values, b4[k].values, 0)
    cx.check('caller attrs unchanged', 'declination' not in ds.attrs)
    r = dolfyn.set_declination(ds, d)
    cx.check('inplace returns None', r is None)
    for k in ('vel', 'orientmat', 'heading'):
        cx.close('same result in place ' + k, ds[k].values, out[k].values, 1e-9)


def headings(cx):
    """the accessor reports true heading consistent with orientmat"""
    ds = omatds(cx, 'vector', 'inst')
    d = cx.angle('declination', -180, 180)
    dolfyn.set_declination(ds, d)
    h, p, r = dolfyn.orient2euler(ds)
    for nm in (cx.cos, cx.sin):
        cx.close('orient2euler heading = heading + declination', nm(h[0]), nm(arr(ds['heading'])[0]), 1e-4)


def harnesses(tier):
    hs = []
    for kind in ('vector', 'awac', 'signature', 'rdi'):
        for c in ('inst', 'earth', 'beam', 'principal') if kind != 'x' else ():
            hs.append(setd(kind, c))
        hs.append(commute(kind))
        hs.append(absolute(kind, 'earth'))
        if kind == 'vector':
            hs.append(absolute(kind, 'inst'))
            hs.append(absolute(kind, 'principal'))
    hs += [Harness('pure', pure, bounds='Vector in earth frame'), Harness('heading', headings, bounds='Vector')]
    return hs
