"""R04: DOLfYN Euler angles <-> orientation matrix are inverse; documented
axis conventions; tilt."""
from symx.runner import Harness
from checks.rotlib import *

T = 1e-5


def fwd(cx):
    from dolfyn import euler2orient, orient2euler
    n = 2
    h = cx.angles('heading', n, 0, 360)
    p = cx.angles('pitch', n, -89, 89)
    r = cx.angles('roll', n, -179, 179)
    o = euler2orient(h, p, r)
    oa = arr(o)
    for t in range(n):
        X, Y, Z = [[oa[k, i, t] for i in range(3)] for k in range(3)]
        cx.close('X east', X[0], cx.sin(h[t]) * cx.cos(p[t]), T)
        cx.close('X north', X[1], cx.cos(h[t]) * cx.cos(p[t]), T)
        cx.close('X up', X[2], cx.sin(p[t]), T)
        cx.close('Y up', Y[2], cx.cos(p[t]) * cx.sin(r[t]), T)
        cx.close('Z up', Z[2], cx.cos(p[t]) * cx.cos(r[t]), T)
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            cx.close('right handed', X[j] * Y[k] - X[k] * Y[j], Z[i], T)
    h2, p2, r2 = orient2euler(o)
    for t in range(n):
        cx.check('heading range', cx.all([h2[t] >= 0, h2[t] < 360.0001]))
        cx.check('pitch range', cx.all([p2[t] >= -90, p2[t] <= 90]))
        cx.check('roll range', cx.all([r2[t] >= -180.0001, r2[t] <= 180.0001]))
        for nm, a, b in (('heading', h[t], h2[t]), ('pitch', p[t], p2[t]), ('roll', r[t], r2[t])):
            cx.close('%s cos' % nm, cx.cos(b), cx.cos(a), 1e-4)
            cx.close('%s sin' % nm, cx.sin(b), cx.sin(a), 1e-4)


def radians(cx):
    from dolfyn import euler2orient
    h = cx.angles('heading', 1, 0, 360)
    p = cx.angles('pitch', 1, -90, 90)
    r = cx.angles('roll', 1, -180, 180)
    k = np.pi / 180
    cx.close('units', arr(euler2orient(h * k, p * k, r * k, units='radians')), arr(euler2orient(h, p, r)), T)
    cx.raises('bad units', Exception, euler2orient, h, p, r, units='gradians')


def back(cx):
    """matrix -> angles -> matrix"""
    from dolfyn import euler2orient, orient2euler
    h = cx.angles('heading', 1, 0, 360)
    p = cx.angles('pitch', 1, -80, 80)
    r = cx.angles('roll', 1, -180, 180)
    o = euler2orient(h, p, r)
    o2 = euler2orient(*orient2euler(o))
    cx.close('same matrix', arr(o2), arr(o), 1e-3)


def dsform(cx):
    """orient2euler on a dataset uses its orientmat"""
    from dolfyn import orient2euler
    import xarray as xr
    from dolfyn import euler2orient
    h = cx.angles('heading', 2, 0, 360)
    p = cx.angles('pitch', 2, -80, 80)
    r = cx.angles('roll', 2, -170, 170)
    o = euler2orient(h, p, r)
    ds = dataset(cx, 'vector', 'inst', cx.array(np.zeros((3, 2)), 'float64'), 2, orientmat=o)
    for a, b, nm in zip(orient2euler(ds), orient2euler(o), ('heading', 'pitch', 'roll')):
        cx.close(nm, arr(a), arr(b), 1e-4)


def single(cx):
    """one matrix without a time axis"""
    from dolfyn import euler2orient, orient2euler
    h = cx.angles('heading', 1, 0, 360)
    p = cx.angles('pitch', 1, -80, 80)
    r = cx.angles('roll', 1, -170, 170)
    o = arr(euler2orient(h, p, r))
    for nm, a, b in zip(('heading', 'pitch', 'roll'), orient2euler(o[:, :, 0].copy()), (h[0], p[0], r[0])):
        cx.close(nm + ' cos', cx.cos(a), cx.cos(b), 1e-4)
        cx.close(nm + ' sin', cx.sin(a), cx.sin(b), 1e-4)


def tail(cx):
    """a Vector's matrix: roll + 180 when the head is up, last good attitude where the tail has none"""
    from dolfyn.rotate.vector import _calc_omat
    from dolfyn import euler2orient
    n = 5
    h = cx.angles('heading', n, 0, 360)
    p = cx.angles('pitch', n, -89, 89)
    r = cx.angles('roll', n, -179, 179)
    m = pick(cx, 'samples without attitude', 0, n - 1)
    down = cx.bools('down', (n,))
    dn = [bool(down[i]) for i in range(n)]
    da = lambda x: xr.DataArray(cx.array([x[i] if i < n - m else float('nan') for i in range(n)], 'float64'), dims=('time',))
    keep = [da(x) for x in (h, p, r)]
    use = [k.copy(deep=True) for k in keep]
    o = arr(_calc_omat(xr.DataArray(times(n), dims=('time',)), *use, orientation_down=np.array(dn)))
    for i in range(n):
        j = min(i, n - m - 1)
        rr = r[j] + 180 if dn[i] else r[j]
        w = arr(euler2orient(cx.array([h[j]], 'float64'), cx.array([p[j]], 'float64'), cx.array([rr], 'float64')))
        cx.close('attitude', o[:, :, i], w[:, :, 0], T)
    for a, b in zip(use, keep):
        cx.close('input untouched', a.data, b.data, 0)


def tilt(cx):
    from dolfyn.rotate.base import calc_tilt
    p = cx.angles('pitch', 1, -80, 80)
    r = cx.angles('roll', 1, -80, 80)
    t = calc_tilt(p, r)[0]
    cx.check('range', cx.all([t >= 0, t <= 90]))
    cp_, sp, cr, sr = cx.cos(p[0]), cx.sin(p[0]), cx.cos(r[0]), cx.sin(r[0])
    c, s = cx.cos(t), cx.sin(t)
    cx.close('tan^2 tilt = tan^2 pitch + tan^2 roll', s * s * cp_ * cp_ * cr * cr,
             c * c * (sp * sp * cr * cr + sr * sr * cp_ * cp_), 1e-4)


def harnesses(tier):
    b = 'heading 0..360, |pitch|<=89, |roll|<180'
    return [Harness('euler_forward', fwd, bounds='2 samples, ' + b), Harness('radians', radians, bounds=b),
            Harness('matrix_back', back, bounds=b), Harness('dataset', dsform, bounds='2 samples, ' + b),
            Harness('single', single, bounds=b), Harness('tail', tail, bounds='5 samples, any number of missing ones at the end, any up/down pattern', max_paths=300),
            Harness('tilt', tilt, bounds='|pitch|,|roll|<=80')]
