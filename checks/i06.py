"""I06: Nortek Vector files."""
import numpy as np
import warnings
from symx.runner import Harness
from checks.common import arr, pick, quiet_log
from checks import nwire as W
from dolfyn.io import nortek


def load(cx, recs, tail=b'', **kw):
    p = cx.file(cx.mkbytes([r.b if hasattr(r, 'b') else r for r in recs] + [tail]), name='data.vec')
    kw.setdefault('userdata', False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return nortek.read_nortek(p, **kw)


def t0(k, s=0):
    return (20, 2, 28, 23, 59, 50 + k) if k < 10 else (20, 2, 29, 0, 0, k - 10)


def epoch(when):
    return np.datetime64('20%02d-%02d-%02dT%02d:%02d:%02d' % when)


def samples(n, fs, sym, name, mode=0, sysfields=(), nens=None):
    def f(cx):
        recs = W.head3(cx, avg=512 // fs, mode=mode) + [W.vec_check(cx), W.vec_hdr(cx, t0(0))]
        xs, xd = [], []
        for i in range(n):
            if i % fs == 0:
                r, x = W.vec_sys(cx, t0(i // fs), 's%d' % i, status=0, sym=sysfields)
                recs.append(r)
                xs.append((i, x))
            r, x = W.vec_data(cx, 'd%d' % i, sym=i in sym)
            recs.append(r)
            xd.append(x)
        ds = load(cx, recs, nens=nens)
        m = n if nens is None else min(n, nens)
        cx.check('all samples', ds['time'].shape == (m,))
        k = .1 if mode & 16 else 1
        for i in range(m):
            if i in sym:
                cx.close('pressure', ds['pressure'].values[i], xd[i]['pressure'], 1e-5, rel=1e-6)
                for j in range(3):
                    cx.close('vel', ds['vel'].values[j, i], xd[i]['vel'][j] * k, 2e-5, rel=1e-6)
                    cx.close('amp', ds['amp'].values[j, i], xd[i]['amp'][j], 0)
                    cx.close('corr', ds['corr'].values[j, i], xd[i]['corr'][j], 0)
        t = ds['time'].values
        for i in range(m):
            w = epoch(t0(0)) + np.timedelta64(int(1000 * i / fs), 'ms')
            cx.check('time', abs((t[i] - w) / np.timedelta64(1, 'ms')) < 2)
        for i, x in xs:
            for nm in sysfields:
                if i < m:
                    cx.close(nm, ds[nm].values[i], x[nm], 1e-3, rel=1e-6)
    return Harness(name, f, bounds='%d samples at %d Hz, any bytes' % (n, fs))


def compare(cx, ds, xd, i, j, k=1):
    """sample j of the file is sample i of the dataset"""
    cx.close('pressure', ds['pressure'].values[i], xd[j]['pressure'], 1e-5, rel=1e-6)
    for b in range(3):
        cx.close('vel', ds['vel'].values[b, i], xd[j]['vel'][b] * k, 2e-5, rel=1e-6)
        cx.close('amp', ds['amp'].values[b, i], xd[j]['amp'][b], 0)
        cx.close('corr', ds['corr'].values[b, i], xd[j]['corr'][b], 0)


def debug(cx):
    """the debug log changes nothing"""
    n, recs, xd = 3, W.head3(cx, avg=512) + [W.vec_check(cx), W.vec_hdr(cx, t0(0))], []
    for i in range(n):
        recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
        r, x = W.vec_data(cx, 'd%d' % i)
        recs.append(r)
        xd.append(x)
    with quiet_log():
        ds = load(cx, recs, debug=True)
    cx.check('samples', ds['time'].shape == (n,))
    for i in range(n):
        compare(cx, ds, xd, i, i)


def window(a, b):
    """nens=b, or nens=(a, b)"""
    def f(cx):
        n, fs = 6, 1
        recs, xd = W.head3(cx, avg=512), []
        for i in range(n):
            recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
            r, x = W.vec_data(cx, 'd%d' % i)
            recs.append(r)
            xd.append(x)
        ds = load(cx, recs, nens=b if a is None else (a, b))
        lo = a or 0
        cx.check('samples', ds['time'].shape == (b - lo,) and ds['vel'].shape == (3, b - lo))
        for i in range(b - lo):
            compare(cx, ds, xd, i, i + lo)
            cx.check('time', abs((ds['time'].values[i] - epoch(t0(i + lo))) / np.timedelta64(1, 'ms')) < 2)
        cx.check('matrix kept', ds['beam2inst_orientmat'].shape == (3, 3))
    return Harness('window_%s_%d' % (a, b), f, bounds='6 samples, nens %s..%d, any bytes' % (a, b))


def between(fields, north=False):
    """samples without a system record: on the line between the records around them"""
    def f(cx):
        fs, n = 4, 9
        recs, xs = W.head3(cx, avg=512 // fs), []
        for i in range(n):
            if i % fs == 0:
                r, x = W.vec_sys(cx, t0(i // fs), 's%d' % i, status=0, sym=fields)
                recs.append(r)
                xs.append(x)
                if north:
                    cx.assume(cx.all([x['heading'] >= 0, x['heading'] < 360]))
            recs.append(W.vec_data(cx, 'd%d' % i, sym=False)[0])
        ds = load(cx, recs)
        for nm in fields:
            v = ds[nm].values
            for i in range(n):
                k, q = divmod(i, fs)
                a, b = xs[k][nm], xs[min(k + 1, len(xs) - 1)][nm]
                if q == 0:
                    cx.close('record', v[i], a, 2e-3, rel=1e-6)
                elif nm != 'heading':
                    cx.close('between', v[i], a + (b - a) * q / fs, 4e-3, rel=1e-6)
                else:
                    # the short way round
                    d = b - a
                    cx.assume(cx.all([cx.not_(cx.all([d > 179, d < 181])), cx.not_(cx.all([d < -179, d > -181]))]))
                    d = cx.ite(d > 180, d - 360, cx.ite(d < -180, d + 360, d))
                    w = a + d * q / fs
                    cx.check('in a circle', cx.all([v[i] >= 0, v[i] <= 360]))
                    e = v[i] - w
                    cx.check('heading between', cx.any([cx.all([e - z < 5e-3, e - z > -5e-3]) for z in (0, 360, -360)]))
    return Harness('between_' + fields[0], f, bounds='9 samples at 4 Hz, 3 system records of any bytes%s' % (' with headings of 0..360' if north else ''), max_paths=100)


def orientation(pat):
    """bit 0 of the status of each system record; between two records either"""
    def f(cx):
        fs = 4
        n = fs * (len(pat) - 1) + 1
        recs, st = W.head3(cx, avg=512 // fs), []
        for i in range(n):
            if i % fs == 0:
                b = pick(cx, 'up%d' % i, 0, 1) if pat[i // fs] is None else pat[i // fs]
                st.append(b)
                recs.append(W.vec_sys(cx, t0(i // fs), 's%d' % i, status=0x30 | b)[0])
            recs.append(W.vec_data(cx, 'd%d' % i, sym=False)[0])
        ds = load(cx, recs)
        o = ds['orientation_down'].values
        cx.check('samples', o.shape == (n,))
        for i in range(n):
            k = i // fs
            if i % fs == 0:
                cx.check('record', bool(o[i]) == bool(st[k]))
            elif st[k] == st[k + 1]:
                cx.check('between', bool(o[i]) == bool(st[k]))
    return Harness('orientation', f, bounds='%d system records, orientation of each picked' % len(pat))


def bursts(nburst, nsys, fs=2, nb=2, tail=0, turned=False):
    """sample times within bursts, one burst of nburst samples per minute"""
    def f(cx):
        recs, want, xd, down = W.head3(cx, avg=512 // fs, nburst=nburst, interval=60), [], [], []
        for b in range(nb + (tail > 0)):
            recs += [W.vec_check(cx), W.vec_hdr(cx, (20, 2, 3, 4, 10 + b, 0))]
            for i in range(nburst if b < nb else tail):
                if i % fs == 0 and i // fs < nsys:
                    recs.append(W.vec_sys(cx, (20, 2, 3, 4, 10 + b, i // fs), 's%d_%d' % (b, i), status=b % 2 if turned else 0)[0])
                down.append(b % 2 if turned else 0)
                r, x = W.vec_data(cx, 'd%d_%d' % (b, i), sym=i == 1)
                recs.append(r)
                xd.append(x)
                want.append(epoch((20, 2, 3, 4, 10 + b, 0)) + np.timedelta64(1000 * i // fs, 'ms'))
        ds = load(cx, recs)
        cx.check('samples', ds['time'].shape == (nb * nburst + tail,))
        cx.check('orientation', [int(v) for v in ds['orientation_down'].values] == down)
        cx.check('duty cycle', ds.attrs['duty_cycle_n_burst'] == nburst and ds.attrs['duty_cycle_interval'] == 60)
        t = ds['time'].values
        for i, w in enumerate(want):
            cx.check('time', abs((t[i] - w) / np.timedelta64(1, 'ms')) < 2)
            if i % nburst == 1:
                compare(cx, ds, xd, i, i)
    return Harness('bursts_%d_%d%s%s' % (nburst, nsys, '_%d' % tail if tail else '', '_turned' if turned else ''), f, bounds='%d bursts of %d samples and %d more, %d system records each' % (nb, nburst, tail, nsys))


def imu(id, known=True):
    """microstrain block after each sample, in instrument axes and units"""
    def f(cx):
        n, fs, g = 3, 2, 9.80665
        recs, xd, xm = W.head3(cx, avg=512 // fs), [], []
        for i in range(n):
            if i % fs == 0:
                recs.append(W.vec_sys(cx, t0(i // fs), 's%d' % i, status=0)[0])
            r, x = W.vec_data(cx, 'd%d' % i, sym=i == 1)
            recs.append(r)
            xd.append(x)
            r, x = W.micro(cx, id, 'm%d' % i)
            for nm in x:
                for v in x[nm]:
                    cx.assume(cx.all([v > -1e3, v < 1e3]))
            recs.append(r)
            xm.append(x)
        ds = load(cx, recs)
        cx.check('samples', ds['time'].shape == (n,) and ds.attrs['has_imu'] == 1)
        compare(cx, ds, xd, 1, 1)
        k = fs if id in (0xc3, 0xd3) else 1
        for i in range(n):
            for nm, sc in [('accel', k * g), ('angrt', k), ('mag', 1)]:
                if nm in xm[i]:
                    a, b, c = xm[i][nm]
                    for j, w in enumerate([-c, b, a]):      # x = -z, y = y, z = x of the sensor
                        cx.close(nm, ds[nm].values[j, i], w * sc, 1e-2, rel=1e-5)
                cx.check(nm + ' present', (nm in ds) == (nm in xm[i]))
            if 'mat' in xm[i]:
                m = xm[i]['mat']                            # rows: sensor axes in NED
                rows = [[-v for v in m[6:9]], m[3:6], m[0:3]]
                for p in range(3):
                    nn, ee, dd = rows[p]
                    for q, w in enumerate([ee, nn, -dd]):
                        cx.close('orientmat', ds['orientmat'].values[p, q, i], w, 1e-2, rel=1e-5)
        cx.check('rotated', all(nm in ds.attrs['rotate_vars'] for nm in ('vel', 'accel', 'angrt')))
    return Harness('imu_%x' % id, f, bounds='3 samples with MicroStrain block %x, any values below 1000' % id)


def imu_unknown(cx):
    """IMU blocks of an unknown kind do not disturb the samples"""
    n = 4
    recs, xd = W.head3(cx, avg=512), []
    for i in range(n):
        recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
        r, x = W.vec_data(cx, 'd%d' % i)
        recs.append(r)
        xd.append(x)
        r = W.rec(cx, 'm', 0x71).zeros(2).pack('BB', 0, 0xd2).raw(bytes(range(1, 43)))
        recs.append(W.done(cx, r))
    ds = load(cx, recs)
    cx.check('samples', ds['time'].shape == (n,))
    for i in range(n):
        compare(cx, ds, xd, i, i)


ROT = [[[.6, .8, 0], [-.8, .6, 0], [0, 0, 1]], [[0, .6, .8], [1, 0, 0], [0, .8, -.6]], [[.36, .48, -.8], [-.8, .6, 0], [.48, .64, .6]]]


def imu_earth(cx):
    """velocity in earth axes by the IMU's own matrix (sensor axes in NED)"""
    import dolfyn
    n, recs, xd = 3, W.head3(cx, avg=512), []
    for i in range(n):
        recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
        r, x = W.vec_data(cx, 'd%d' % i)
        recs.append(r)
        xd.append(x)
        r = W.rec(cx, 'm', 0x71).zeros(2).pack('BB', 0, 0xcc).pack('9f', *range(9)).pack('9f', *[v for row in ROT[i] for v in row])
        recs.append(W.done(cx, r.zeros(6)))
    ds = load(cx, recs)
    dolfyn.rotate2(ds, 'earth', inplace=True)
    for i in range(n):
        x, y, z = xd[i]['vel']
        s = [z, y, -x]                                     # along the sensor's axes
        ned = [sum(ROT[i][p][q] * s[p] for p in range(3)) for q in range(3)]
        for j, w in enumerate([ned[1], ned[0], -ned[2]]):
            cx.close('earth velocity', ds['vel'].values[j, i], w, 1e-4)


def truncated(cx):
    """a file cut anywhere inside its last record keeps all whole samples"""
    cut = pick(cx, 'cut', 1, 21)
    n, recs, xd = 4, W.head3(cx, avg=512), []
    for i in range(n):
        recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
        r, x = W.vec_data(cx, 'd%d' % i, sym=i in (0, n - 1))
        recs.append(r)
        xd.append(x)
    r, _ = W.vec_data(cx, 'last', sym=False)
    recs[-1:] = [recs[-1], r.b[:cut]]
    ds = load(cx, recs)
    cx.check('whole samples', ds['time'].shape == (n,))
    compare(cx, ds, xd, n - 1, n - 1)
    compare(cx, ds, xd, 0, 0)


def harnesses(tier):
    return [samples(6, 2, (0, 2, 5), 'data'),
            samples(3, 1, (1,), 'fine', mode=16),
            samples(6, 2, (), 'environment', sysfields=('batt', 'c_sound', 'heading', 'pitch', 'roll', 'temp', 'error')),
            between(('batt', 'c_sound', 'pitch', 'roll', 'temp')), between(('heading',), True),
            window(None, 4), window(2, 5), window(None, 3), orientation([None] * 4),
            bursts(8, 4), bursts(4, 2), bursts(4, 1), bursts(8, 4, tail=6, turned=True), bursts(4, 2, tail=3), bursts(6, 2, nb=1, tail=2, turned=True), imu(0xc3), imu(0xcc), imu(0xd3),
            Harness('imu_earth', imu_earth, bounds='3 samples of any velocity, one rotation matrix each'),
            Harness('imu_unknown', imu_unknown, bounds='4 samples with IMU blocks of kind d2'),
            Harness('debug', debug, bounds='3 samples, any bytes, debug log on'),
            Harness('truncated', truncated, bounds='4 samples and 1..21 bytes of a fifth')]
