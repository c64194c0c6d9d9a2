"""R08: calc_principal_heading is the speed-weighted (bi)directional mean."""
from symx.runner import Harness
from checks.rotlib import *

T = 2e-4


def polar(cx, n, name=''):
    """n flows given by compass-independent direction (from east) and speed"""
    ph = [cx.angle('%sphi%d' % (name, t), -180, 180) for t in range(n)]
    u = [cx.real('%sspeed%d' % (name, t), 0.1, 5) for t in range(n)]
    for t in range(n):
        if cx.sin(ph[t]) * u[t] <= 0:      # one path per half-plane
            pass
    v = [[u[t] * cx.cos(ph[t]) for t in range(n)], [u[t] * cx.sin(ph[t]) for t in range(n)]]
    return ph, u, v


FIXED = ((0.6, 0.8, 2.0), (-0.8, 0.6, 1.0), (0.28, -0.96, 0.5), (-1.0, 0.0, 3.0))     # cosine, sine and speed


def mk(n, tidal, k=None):
    """n samples; those past the first k, if k is given, are fixed ones"""
    def f(cx):
        m = k or n
        ph, u, v = polar(cx, m)
        for c, s, w in FIXED[:n - m]:
            v = [v[0] + [w * c], v[1] + [w * s]]
        v.append([0.5] * n)
        h = arr(dolfyn.calc_principal_heading(cx.array(v, 'float64'), tidal_mode=tidal))
        cs = [cx.cos(p) for p in ph] + [x[0] for x in FIXED[:n - m]]
        sn = [cx.sin(p) for p in ph] + [x[1] for x in FIXED[:n - m]]
        u = u + [x[2] for x in FIXED[:n - m]]
        if tidal:
            sx = sum(u[t] * (cs[t] * cs[t] - sn[t] * sn[t]) for t in range(n))
            sy = sum(2 * u[t] * cs[t] * sn[t] for t in range(n))
        else:
            sx, sy = sum(u[t] * cs[t] for t in range(n)), sum(u[t] * sn[t] for t in range(n))
        cx.assume(sx * sx + sy * sy >= 0.01)
        if tidal:
            cx.check('range', cx.all([h >= -0.001, h <= 180.001]))
            want = 90 - cx.atan2d(sy / n, sx / n) / 2
        else:
            cx.check('range', cx.all([h >= -90.001, h <= 270.001]))
            want = 90 - cx.atan2d(sy / n, sx / n)
        cx.close('speed-weighted mean direction', h, want, 1e-3)
    return Harness('mean_%s_n%d%s' % ('tidal' if tidal else 'uni', n, '_of%d' % k if k else ''), f,
                   bounds='%d samples%s, any directions, speeds 0.1..5, resultant >= 0.1' % (n, ' (the first %d free)' % k if k else ''), max_paths=200)


def single(tidal):
    def f(cx):
        th = cx.angle('direction', 0, 360)
        u = cx.real('speed', 0.1, 5)
        v = cx.array([[u * cx.sin(th)], [u * cx.cos(th)], [0.0]], 'float64')
        h = arr(dolfyn.calc_principal_heading(v, tidal_mode=tidal))
        cr = cx.sin(th) * cx.cos(h) - cx.cos(th) * cx.sin(h)
        cx.close('heading of a steady flow is its compass direction', cr, 0, 1e-5)
        if not tidal:
            cx.check('not reversed', cx.sin(th) * cx.sin(h) + cx.cos(th) * cx.cos(h) > 0)
    return Harness('steady_%s' % ('tidal' if tidal else 'uni'), f, bounds='one sample, any direction, speed 0.1..5')


def flip(cx):
    """reversing any sample does not change the tidal heading"""
    ph, u, v = polar(cx, 2)
    for t in range(2):
        cx.assume(v[1][t] > 0)
    sgn = [-1 if cx.bool('flip%d' % t) else 1 for t in range(2)]
    w = [[v[k][t] * sgn[t] for t in range(2)] for k in range(2)]
    h1 = arr(dolfyn.calc_principal_heading(cx.array(v, 'float64')))
    h2 = arr(dolfyn.calc_principal_heading(cx.array(w, 'float64')))
    cx.close('flood/ebb sense is irrelevant', h1, h2, 1e-3)


def nans(cx):
    """missing samples are ignored"""
    v = cx.reals('vel', (2, 1), -5, 5)
    a = arr(v)
    cx.assume(a[1, 0] > 0.1)
    w = cx.array([[a[k, 0], float('nan')] for k in range(2)], 'float64')
    for tm in (False, True):
        h1 = arr(dolfyn.calc_principal_heading(v.copy(), tidal_mode=tm))
        h2 = arr(dolfyn.calc_principal_heading(w.copy(), tidal_mode=tm))
        cx.close('nan ignored', h2, h1, 1e-3)


def aligned(cx):
    """rotating into 'principal' with the computed heading puts a steady flow
    entirely in the streamwise component"""
    th = cx.angle('direction', 0, 180)
    u = cx.real('speed', 0.1, 5)
    z = cx.real('w', -1, 1)
    v = cx.array([[u * cx.sin(th)] * 1, [u * cx.cos(th)], [z]], 'float64')
    ds = dataset(cx, 'vector', 'earth', v, 1)
    ds.attrs['principal_heading'] = arr(dolfyn.calc_principal_heading(ds['vel'].copy(deep=True).data, tidal_mode=False))
    dolfyn.rotate2(ds, 'principal')
    w = arr(ds['vel'])
    cx.close('streamwise', w[0, 0], u, 1e-3)
    cx.close('cross-stream', w[1, 0], 0, 1e-3)
    cx.close('vertical', w[2, 0], z, 1e-6)


def harnesses(tier):
    hs = [mk(1, True), mk(1, False), mk(2, False), mk(2, True), single(True), single(False),
          Harness('flip', flip, bounds='2 samples, each optionally reversed'),
          Harness('nan', nans, bounds='1 good + 1 missing sample'),
          Harness('aligned', aligned, bounds='steady flow, any direction')]
    if tier != 'quick':
        hs += [mk(3, False, 1), mk(5, False, 1), mk(3, False, 2)]
    return hs
