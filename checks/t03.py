"""T03: detrending and direction-convention conversion."""
from symx.runner import Harness
import numpy as np
from checks.common import arr
from dolfyn.tools import misc


def detrend(n, axis, rows=2):
    def f(cx):
        shp = (rows, n) if axis in (1, -1) else (n, rows)
        v = cx.reals('a', shp, -10, 10)
        c, s = cx.real('offset', -5, 5), cx.real('slope', -2, 2)
        out = misc.detrend(v.copy(), axis=axis)
        base = v.copy()
        keep = base.copy()
        misc.detrend(base, axis=axis)
        cx.close('input untouched', base, keep, 0)
        ip = v.copy()
        r = misc.detrend(ip, axis=axis, in_place=True)
        cx.close('in place gives the same', ip, out, 1e-6)
        w = v.copy()
        for i in range(n):
            ix = (slice(None), i) if axis in (1, -1) else (i, slice(None))
            w[ix] = w[ix] + c + s * i
        out2 = misc.detrend(w, axis=axis)
        cx.close('adding any line changes nothing', out2, out, 1e-5)
        again = misc.detrend(out.copy(), axis=axis)
        cx.close('idempotent', again, out, 1e-5)
        for k in range(rows):
            y = [out[(k, i) if axis in (1, -1) else (i, k)] for i in range(n)]
            x = [v[(k, i) if axis in (1, -1) else (i, k)] for i in range(n)]
            cx.close('zero mean', cx.nsum(y), 0, 1e-5)
            cx.close('zero slope', cx.nsum([i * y[i] for i in range(n)]), 0, 1e-4)
            # only a line was removed
            for i in range(1, n - 1):
                cx.close('curvature kept', y[i + 1] - 2 * y[i] + y[i - 1], x[i + 1] - 2 * x[i] + x[i - 1], 1e-5)
    return Harness('detrend_n%d_axis%d' % (n, axis), f, bounds='%d series of %d values' % (rows, n))


def missing(n, axis):
    """the line is the least-squares line of the samples that are present"""
    def f(cx):
        v = cx.reals('a', (2, n), -10, 10)
        m = cx.bools('miss', (n,))
        bad = [bool(m[i]) for i in range(n)]
        good = [i for i in range(n) if not bad[i]]
        cx.assume(len(good) >= 2)
        w = v.copy()
        for i in range(n):
            if bad[i]:
                w[0, i] = float('nan')
        if axis == 0:
            w = w.T.copy()
        keep = w.copy()
        out = misc.detrend(w, axis=axis)
        if axis == 0:
            out, w, keep = out.T, w.T, keep.T
        cx.check('missing stay missing', cx.all([cx.isnan(out[0, i]) for i in range(n) if bad[i]] or [True]))
        y, x = [out[0, i] for i in good], [v[0, i] for i in good]
        cx.close('zero mean', cx.nsum(y), 0, 1e-5)
        cx.close('zero slope', cx.nsum([i * q for i, q in zip(good, y)]), 0, 1e-4)
        for a, b, c in zip(range(len(good)), range(1, len(good)), range(2, len(good))):
            h, k = good[b] - good[a], good[c] - good[b]
            cx.close('only a line removed', h * (y[c] - y[b]) - k * (y[b] - y[a]), h * (x[c] - x[b]) - k * (x[b] - x[a]), 1e-5)
        z = [out[1, i] for i in range(n)]
        cx.close('other series unaffected', cx.nsum([i * q for i, q in enumerate(z)]), 0, 1e-4)
        cx.close('input untouched', [w[0, i] for i in good], x, 0)
    return Harness('missing_n%d_axis%d' % (n, axis), f, bounds='2 series of %d values, any pattern of missing values in one' % n)


def degrees(tidal):
    def f(cx):
        n = 3
        d = cx.angles('deg', n, -360, 720)
        a = arr(misc.convert_degrees(d.copy(), tidal_mode=tidal))
        for i in range(n):
            x = a[i]
            if tidal:
                cx.check('range', cx.all([x > -180.0001, x <= 180]))
            else:
                cx.check('range', cx.all([x >= 0, x < 360]))
            # x + d = 90 modulo 360
            k = (x + d[i] - 90) / 360
            cx.close('bearing = 90 - angle (mod 360)', k, cx.floor(k + 0.5), 1e-6)
        b = arr(misc.convert_degrees(a.copy(), tidal_mode=tidal))
        for i in range(n):
            k = (b[i] - d[i]) / 360
            cx.close('its own inverse (mod 360)', k, cx.floor(k + 0.5), 1e-6)
        keep = d.copy()
        misc.convert_degrees(d, tidal_mode=tidal)
        cx.close('input untouched', d, keep, 0)
    return Harness('degrees_%s' % ('tidal' if tidal else 'full'), f, bounds='angles in [-360, 720]')


def scalar(cx):
    x = cx.real('deg', 0, 360)
    for tidal in (False, True):
        r = misc.convert_degrees(x, tidal_mode=tidal)
        k = (r + x - 90) / 360
        cx.close('plain numbers too', k, cx.floor(k + 0.5), 1e-6)


def large(cx):
    """small fluctuations on a large line survive"""
    n = 5
    v = cx.reals('a', (n,), -1, 1)
    c, s = cx.real('offset', 1e6, 1e7), cx.real('slope', 1e5, 1e6)
    w = cx.array([v[i] + c + s * i for i in range(n)], 'float64')
    cx.close('adding a large line changes nothing', misc.detrend(w), misc.detrend(v.copy()), 1e-4)


def harnesses(tier):
    ns = ((3, 4, 5, 6), (3, 4, 5, 6, 7, 8))[tier != 'quick']
    return [detrend(n, ax) for n in ns for ax in (0, 1, -1)] + [missing(n, ax) for n in ns[-1:] for ax in (0, 1, -1)] + [degrees(True), degrees(False), Harness('large', large, bounds='5 values within 1 of any line up to 1e7'),
                                                               Harness('scalar', scalar, bounds='one number 0..360')]
