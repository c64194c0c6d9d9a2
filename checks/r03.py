"""R03: heading/pitch/roll -> orientation: proper rotation with the documented
axis conventions (observed by rotating unit vectors with rotate2)."""
from symx.runner import Harness
from checks.rotlib import *

T = 1e-5


def axes(cx, kind, att, orient='up', down=None, fromomat=False, **attrs):
    """earth components of the instrument axes, by rotating unit vectors"""
    nb = 3 if kind in ('vector', 'awac') else 4
    if kind == 'vector':
        one = {k: cx.array([arr(v)[0]] * 3, 'float64') for k, v in att.items()}
        v = np.eye(3)
        d = cx.array([down] * 3, 'bool') if down is not None else None
        ds = dataset(cx, kind, 'inst', cx.array(v, 'float64'), 3, down=d, **one, **attrs)
    else:
        v = np.zeros((nb, 3, 1))
        for i in range(3):
            v[i, i, 0] = 1
            if i == 2 and nb == 4 and kind != 'rdi':
                v[3, 2, 0] = 1
        ds = dataset(cx, kind, 'inst', cx.array(v, 'float64'), 1, 3, orientation=orient, **att, **attrs)
    if fromomat:
        from dolfyn.rotate.vector import _calc_omat
        ds['orientmat'] = _calc_omat(ds['time'], ds['heading'], ds['pitch'], ds['roll'],
                                     ds['orientation_down'] if kind == 'vector' else None)
    dolfyn.rotate2(ds, 'earth')
    w = arr(ds['vel'])
    if kind == 'vector':
        return [[w[i, k] for i in range(3)] for k in range(3)], ds
    return [[w[i, k, 0] for i in range(3)] for k in range(3)], ds


def proper(cx, X, Y, Z):
    for nm, a, b, e in (('XX', X, X, 1), ('YY', Y, Y, 1), ('ZZ', Z, Z, 1), ('XY', X, Y, 0), ('XZ', X, Z, 0), ('YZ', Y, Z, 0)):
        cx.close('orthonormal ' + nm, sum(p * q for p, q in zip(a, b)), e, T)
    cr = [X[1] * Y[2] - X[2] * Y[1], X[2] * Y[0] - X[0] * Y[2], X[0] * Y[1] - X[1] * Y[0]]
    for i in range(3):
        cx.close('right handed', cr[i], Z[i], T)


def nortek(kind, orient='up', fromomat=False):
    def f(cx):
        att = attitude(cx, 1, 90 if kind in ('vector', 'awac') else 89)
        down = cx.bool('orientation_down') if kind == 'vector' else None
        (X, Y, Z), ds = axes(cx, kind, att, orient, down, fromomat)
        h, p, r = (arr(att[k])[0] for k in ('heading', 'pitch', 'roll'))
        cr, sr = cx.cos(r), cx.sin(r)
        sg = 1
        if kind == 'vector':
            sg = cx.ite(down, -1, 1)
        elif orient == 'down':
            sg = -1
        proper(cx, X, Y, Z)
        cx.close('X axis east', X[0], cx.sin(h) * cx.cos(p), T)
        cx.close('X axis north', X[1], cx.cos(h) * cx.cos(p), T)
        cx.close('X axis up = sin(pitch)', X[2], cx.sin(p), T)
        cx.close('Y axis up = sin(roll) cos(pitch)', Y[2], sg * sr * cx.cos(p), T)
        cx.close('Z axis up = cos(roll) cos(pitch)', Z[2], sg * cr * cx.cos(p), T)
    return Harness('nortek_%s%s%s' % (kind, '' if orient == 'up' else '_down', '_omat' if fromomat else ''), f,
                   bounds='one attitude: heading 0..360, |pitch|<=90, |roll|<=180, orientation flag symbolic')


def rdi(orient):
    def f(cx):
        att = attitude(cx, 1, 80)
        (X, Y, Z), ds = axes(cx, 'rdi', att, orient, use_pitchroll='yes')
        h, p, r = (arr(att[k])[0] for k in ('heading', 'pitch', 'roll'))
        proper(cx, X, Y, Z)
        # gimbal pitch: tan P = tan(tilt1) cos(tilt2)
        cp1, sp1, cr, sr = cx.cos(p), cx.sin(p), cx.cos(r), cx.sin(r)
        sg = -1 if orient == 'up' else 1
        yh = Y[0] * cx.sin(h) + Y[1] * cx.cos(h)        # cosine of the gimbal pitch
        # horizontal azimuth of the beam-3 axis (Y) is the heading
        cx.close('Y axis is at the heading', Y[0] * cx.cos(h), Y[1] * cx.sin(h), T)
        cx.check('gimbal pitch within +-90', yh >= 0)
        cx.close('tan(gimbal pitch) = tan(tilt1) cos(tilt2)', Y[2] * cp1, yh * sp1 * cr, T)
        cx.close('X up', X[2], -sg * sr * yh, T)
        cx.close('Z up', Z[2], sg * cr * yh, T)
    return Harness('rdi_%s' % orient, f, bounds='one attitude: heading 0..360, |tilt1|<=80, |roll|<=180; %s-looking' % orient)


def level(kind):
    """level instruments: rotating heading only turns horizontal velocities"""
    def f(cx):
        h = cx.angles('heading', 1, 0, 360)
        z = cx.array([0.0], 'float64')
        (X, Y, Z), ds = axes(cx, kind, dict(heading=h, pitch=z, roll=z), 'down' if kind == 'rdi' else 'up',
                             False if kind == 'vector' else None)
        hd = arr(h)[0]
        f_, l = (Y, [-x for x in X]) if kind == 'rdi' else (X, Y)
        for i, (a, b) in enumerate(((cx.sin(hd), -cx.cos(hd)), (cx.cos(hd), cx.sin(hd)), (0, 0))):
            cx.close('forward axis', f_[i], a, T)
            cx.close('left axis', l[i], b, T)
            cx.close('up axis', Z[i], 1 if i == 2 else 0, T)
    return Harness('level_%s' % kind, f, bounds='pitch=roll=0, any heading')


def shiptilt(cx):
    """ship-frame RDI data already tilt-corrected: pitch and roll are ignored"""
    att = attitude(cx, 1, 80)
    v = cx.reals('vel', (4, 1, 1), -10, 10)
    ds = dataset(cx, 'rdi', 'inst', v.copy(), 1, 1, orientation='down', use_pitchroll='yes', **att)
    ds.attrs['coord_sys'] = 'ship'
    dolfyn.rotate2(ds, 'earth')
    w = arr(ds['vel'])
    h = arr(att['heading'])[0]
    va = arr(v)
    cx.close('E', w[0, 0, 0], va[0, 0, 0] * cx.cos(h) + va[1, 0, 0] * cx.sin(h), 1e-4)
    cx.close('N', w[1, 0, 0], va[1, 0, 0] * cx.cos(h) - va[0, 0, 0] * cx.sin(h), 1e-4)
    cx.close('U', w[2, 0, 0], va[2, 0, 0], 1e-4)


def nanend(cx):
    """attitude missing at the end of a file: the last good attitude is used"""
    from dolfyn.rotate.vector import _calc_omat
    import xarray as xr
    n = 4
    att = attitude(cx, n, 90)
    k = 2          # trailing samples where at least one sensor is missing
    # each sensor stops at its own sample
    first = ['all', 'heading', 'pitch', 'roll'][pick(cx, 'first_to_stop', 0, 3)]
    stop = {q: n - k if first in ('all', q) else n - 1 for q in att}
    vals = {q: [arr(att[q])[i] if i < stop[q] else float('nan') for i in range(n)] for q in att}
    da = {q: xr.DataArray(cx.array(vals[q], 'float64'), dims=('time',), coords={'time': times(n)}) for q in vals}
    o = arr(_calc_omat(da['heading']['time'], da['heading'], da['pitch'], da['roll'], None))
    for t in range(n - k, n):
        for i in range(3):
            for j in range(3):
                cx.close('held', o[i, j, t], o[i, j, n - k - 1], T)
    for t in range(n - k):
        cx.close('first row', o[0, 2, t], cx.sin(arr(att['pitch'])[t]), T)


def harnesses(tier):
    hs = [nortek('vector'), nortek('vector', fromomat=True), nortek('awac', fromomat=True), nortek('awac'), nortek('signature'),
          nortek('signature', 'down'), nortek('ad2cp'), rdi('up'), rdi('down')]
    hs += [level(k) for k in ('vector', 'signature', 'rdi')]
    hs += [Harness('ship', shiptilt, bounds='one ship-frame sample, any attitude'),
           Harness('nan_tail', nanend, bounds='4 samples, last 2 missing in all sensors or in any one of them')]
    return hs
