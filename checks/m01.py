"""M01: IMU motion correction of velocimeter records."""
import warnings
import numpy as np
import xarray as xr
import scipy.signal as ss
from symx.runner import Harness
from checks.rotlib import *
from dolfyn.adv.motion import correct_motion, CalcMotion
import dolfyn

IMU = [0.00635, 0.00635, 0.14986]
T = 2e-4
SWAP = np.array([[0., 1, 0], [1, 0, 0], [0, 0, -1]])


def rotmat(h, p, r):
    ch, sh, cp_, sp_, cr, sr = np.cos(h), np.sin(h), np.cos(p), np.sin(p), np.cos(r), np.sin(r)
    Z = np.array([[ch, sh, 0], [-sh, ch, 0], [0, 0, 1]])
    Y = np.array([[cp_, 0, sp_], [0, 1, 0], [-sp_, 0, cp_]])
    X = np.array([[1, 0, 0], [0, cr, sr], [0, -sr, cr]])
    return X @ Y @ Z


def omats(n):
    """concrete attitudes that change from sample to sample"""
    return np.stack([rotmat(0.3 + 0.9 * t, 0.2 - 0.11 * t, -0.4 + 0.23 * t) for t in range(n)], axis=-1)


def butter_matrix(order, f, fs, n):
    b, a = ss.butter(order, f / (fs / 2))
    return ss.filtfilt(b, a, np.eye(n), axis=0)


def lin(M, x):
    return [sum(float(M[i, j]) * x[j] for j in range(len(x))) for i in range(M.shape[0])]


def cross(w, l):
    return [w[1] * l[2] - w[2] * l[1], w[2] * l[0] - w[0] * l[2], w[0] * l[1] - w[1] * l[0]]


def record(cx, n, O, fs=2.0, vec=(0.48, -0.07, -0.27), head=None, coord='inst', attrs=None, vals=None):
    if vals is None:
        vals = [cx.reals(k, (3, n), -3, 3) for k in ('vel', 'accel', 'angrt', 'mag')]
    v, a, w, m = vals
    ds = dataset(cx, 'vector', coord, v.copy(), n, imu=True,
                 extra=[(k, ('dirIMU', 'time'), x.copy()) for k, x in (('accel', a), ('angrt', w), ('mag', m))],
                 orientmat=cx.array(O, 'float64') if isinstance(O, np.ndarray) else O)
    beam_mat(cx, ds, TMATS['vector'])
    ds.attrs.update(rotate_vars=['vel', 'accel', 'angrt', 'mag'], fs=fs, has_imu=1, inst2head_vec=list(vec))
    ds['inst2head_rotmat'] = xr.DataArray(np.eye(3) if head is None else head, dims=['x1', 'x2'], coords={'x1': [1, 2, 3], 'x2': [1, 2, 3]})
    ds.attrs['inst2head_rotmat_was_set'] = 1
    ds.attrs.update(attrs or {})
    return ds, vals


def to_earth(O, x, t):
    return [sum(O[i, j, t] * x[i] for i in range(3)) for j in range(3)]


def to_inst(O, x, t):
    return [sum(O[i, j, t] * x[j] for j in range(3)) for i in range(3)]


def motion(vals, O, fs, f1, f2, vec, n, burst=None):
    """oracle: lists [component][time] in the earth frame"""
    v, a, w, m = vals
    col = lambda x, t: [x[i, t] for i in range(3)]
    A = [to_earth(O, col(a, t), t) for t in range(n)]
    A = [[A[t][i] for t in range(n)] for i in range(3)]
    k = burst or n
    low, acc = [], []
    for i in range(3):
        L, V = [], []
        for b in range(n // k):
            x = A[i][b * k:(b + 1) * k]
            lo = [sum(x) / k] * k if f1 == 0 else lin(butter_matrix(1, f1, fs, k), x)
            hp = [p - q for p, q in zip(x, lo)]
            y = [0]
            for t in range(1, k):
                y.append(y[-1] + (hp[t] + hp[t - 1]) / (2 * fs))
            if f2 > 0:
                z = lin(butter_matrix(2, f2, fs, k), y)
                y = [p - q for p, q in zip(y, z)]
            L += lo
            V += y
        low.append(L)
        acc.append(V)
    l = [vec[i] - IMU[i] for i in range(3)]
    rot_i = [cross(col(w, t), l) for t in range(n)]
    return A, low, acc, rot_i


def compare(cx, d, vals, O, fs, f1, f2, vec, n, earth, burst=None, tag=''):
    v, a, w, m = vals
    A, low, acc, rot_i = motion(vals, O, fs, f1, f2, vec, n, burst)
    col = lambda x, t: [x[i, t] for i in range(3)]
    cx.check(tag + 'frame', d.attrs['coord_sys'] == ('earth' if earth else 'inst'))
    cx.check(tag + 'marked', bool(d.attrs['motion corrected']))
    out = {k: arr(d[k]) for k in ('vel', 'vel_raw', 'velrot', 'velacc', 'acclow', 'accel', 'angrt', 'mag')}
    for t in range(n):
        E = lambda x: x if earth else to_inst(O, x, t)      # earth-frame vector in the output frame
        I = lambda x: to_earth(O, x, t) if earth else x      # inst-frame vector in the output frame
        va, lo, ac = E([acc[i][t] for i in range(3)]), E([low[i][t] for i in range(3)]), E([A[i][t] for i in range(3)])
        raw, vr = I(col(v, t)), I(rot_i[t])
        for i in range(3):
            cx.close(tag + 'velrot is omega x lever arm', out['velrot'][i, t], vr[i], T)
            cx.close(tag + 'velacc is the integral of the high-passed acceleration', out['velacc'][i, t], va[i], T)
            cx.close(tag + 'acclow', out['acclow'][i, t], lo[i], T)
            cx.close(tag + 'accel in the output frame', out['accel'][i, t], ac[i], T)
            cx.close(tag + 'vel_raw is the measured velocity', out['vel_raw'][i, t], raw[i], T)
            cx.close(tag + 'vel = raw + rotation + translation', out['vel'][i, t], raw[i] + vr[i] + va[i], 2 * T)
            cx.close(tag + 'angrt', out['angrt'][i, t], I(col(w, t))[i], T)
            cx.close(tag + 'mag', out['mag'][i, t], I(col(m, t))[i], T)


def filtered(earth, f1, f2, arg=True):
    n = 10

    def f(cx):
        O = omats(n)
        vec = (0.48, -0.07, -0.27)
        ds, vals = record(cx, n, O, vec=vec)
        kw = dict(accel_filtfreq=f1, vel_filtfreq=f2)
        if not arg:
            ds.attrs['motion accel_filtfreq Hz'] = f1
            kw = {}
        d = correct_motion(ds, to_earth=earth, **kw)
        compare(cx, d, vals, O, 2.0, f1, f2 if f2 is not None else f1 / 3, vec, n, earth)
        cx.check('filter recorded', abs(d.attrs['motion accel_filtfreq Hz'] - f1) < 1e-12)
    return Harness('filtered_%s_%g_%s%s' % ('earth' if earth else 'inst', f1, f2, '' if arg else '_attr'), f,
                   bounds='10 samples, changing attitude, any velocity, acceleration and turn rate', timeout=30)


def default(cx):
    n = 10
    O = omats(n)
    ds, vals = record(cx, n, O)
    d = correct_motion(ds)
    compare(cx, d, vals, O, 2.0, 0.03, 0.01, (0.48, -0.07, -0.27), n, True)
    cx.check('default filter recorded', d.attrs['motion accel_filtfreq Hz'] == 0.03)
    ds, _ = record(cx, n, O, vals=vals)
    ds.attrs['motion accel_filtfreq Hz'] = 0.2
    ds.attrs['motion vel_filtfreq Hz'] = 0.1
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compare(cx, correct_motion(ds), vals, O, 2.0, 0.2, 0.1, (0.48, -0.07, -0.27), n, True, tag='attributes: ')
        compare(cx, correct_motion(ds, accel_filtfreq=0.3, vel_filtfreq=0), vals, O, 2.0, 0.3, 0, (0.48, -0.07, -0.27), n, True, tag='arguments win: ')


def attitude_any(earth):
    """any attitude (symbolic heading and tilt), no filters"""
    def f(cx):
        n = 2
        h, p = cx.angles('h', n, 0, 360), cx.angles('p', n, -90, 90)
        O = [[None] * 3 for _ in range(3)]
        rows = []
        for t in range(n):
            ch, sh, c, s = cx.cos(h[t]), cx.sin(h[t]), cx.cos(p[t]), cx.sin(p[t])
            rows.append([[c * ch, c * sh, s], [-sh, ch, 0.0], [-s * ch, -s * sh, c]])
        O = cx.array([[[rows[t][i][j] for t in range(n)] for j in range(3)] for i in range(3)], 'float64')
        vec = [cx.real('l%d' % i, -1, 1) for i in range(3)]
        vals = [cx.reals(k, (3, n), -3, 3) for k in ('vel', 'accel', 'angrt')]
        vals.append(vals[0] * 0.5)
        calc = {}
        ds, vals = record(cx, n, O, vals=vals, vec=(0, 0, 0))
        ds.attrs['inst2head_vec'] = cx.array(vec, 'float64') if cx.sym else np.array([float(x) for x in vec])
        d = correct_motion(ds, accel_filtfreq=0, to_earth=earth)
        compare(cx, d, vals, O, 2.0, 0, 0, vec, n, earth)
    return Harness('attitude_%s' % ('earth' if earth else 'inst'), f, bounds='2 samples, any heading and pitch, any lever arm, no filters', timeout=40)


def duty(earth, f1=0.1, f2=None):
    def f(cx):
        n, k = 20, 10
        O = omats(n)
        ds, vals = record(cx, n, O, attrs=dict(duty_cycle_n_burst=k, duty_cycle_interval=60))
        t = times(k, 0.5)
        ds = ds.assign_coords(time=('time', np.concatenate([t, t + np.timedelta64(60, 's')])))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = correct_motion(ds, accel_filtfreq=f1, vel_filtfreq=f2, to_earth=earth)
        compare(cx, d, vals, O, 2.0, f1, f1 / 3 if f2 is None else f2, (0.48, -0.07, -0.27), n, earth, burst=k)
    return Harness('duty_%s%s' % ('earth' if earth else 'inst', '' if f1 == 0.1 else '_%g_%s' % (f1, f2)), f, bounds='2 bursts of 10 samples', timeout=40)


def frames(cx):
    """the frame and the order of rotations do not matter"""
    n = 10
    O = omats(n)
    ds, vals = record(cx, n, O)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e = correct_motion(ds, accel_filtfreq=0.1)
        i = correct_motion(ds, accel_filtfreq=0.1, to_earth=False)
        e2 = correct_motion(rot(ds, 'earth'), accel_filtfreq=0.1)
        b2 = correct_motion(rot(ds, 'beam'), accel_filtfreq=0.1)
        back, forth = rot(e, 'inst'), rot(i, 'earth')
    for k in ('vel', 'vel_raw', 'velrot', 'velacc', 'acclow', 'accel', 'angrt', 'mag'):
        cx.close('earth result turned back: ' + k, back[k].values, i[k].values, T)
        cx.close('instrument result turned: ' + k, forth[k].values, e[k].values, T)
        cx.close('from earth data: ' + k, e2[k].values, e[k].values, 5e-4)
        cx.close('from beam data: ' + k, b2[k].values, e[k].values, 5e-4)


def probes(head):
    """correction at the probe tips: each beam sees the motion of its own tip"""
    def f(cx):
        n = 10
        O = omats(n)
        R = np.eye(3) if head is None else head
        vec = (0.48, -0.07, -0.27)
        ds, vals = record(cx, n, O, head=head)
        d = correct_motion(ds, accel_filtfreq=0.1, to_earth=False, separate_probes=True)
        w = vals[2]
        M = TMATS['vector']
        Mi = np.linalg.inv(M)
        r, ph = 0.076, -np.pi / 6
        for t in (0, 4, n - 1):
            beam = []
            for b in range(3):
                th = b * 2 * np.pi / 3
                tip = R.T @ np.array([r * np.cos(th), r * np.sin(th), r * np.tan(ph)])
                l = [vec[i] + tip[i] - IMU[i] for i in range(3)]
                vi = cross([w[i, t] for i in range(3)], l)
                vh = lin(R, vi)
                beam.append(sum(float(Mi[b, j]) * vh[j] for j in range(3)))
            want = lin(R.T, lin(M, beam))
            for i in range(3):
                cx.close('velrot at the probe tips', arr(d['velrot'])[i, t], want[i], 5e-4)
                cx.close('vel', arr(d['vel'])[i, t], vals[0][i, t] + want[i] + arr(d['velacc'])[i, t], 5e-4)
    return Harness('probes_%s' % ('aligned' if head is None else 'turned'), f, bounds='10 samples, turn rates up to 3', timeout=40)


def points(cx):
    """velrot of several points at once"""
    n = 2
    O = omats(n)
    ds, vals = record(cx, n, O)
    w = vals[2]
    P = cx.reals('point', (3, 2), -1, 1)
    calc = CalcMotion(ds, accel_filtfreq=0, to_earth=False)
    for earth in (False, True):
        q = calc.calc_velrot(P, to_earth=earth)
        cx.check('shape', tuple(q.shape) == (3, 2, n))
        if earth:
            for k in range(2):
                one = calc.calc_velrot(P[:, k], to_earth=True)
                for t in range(n):
                    c = to_earth(O, cross([w[i, t] for i in range(3)], [P[i, k] - IMU[i] for i in range(3)]), t)
                    for i in range(3):
                        cx.close('earth: each point', q[i, k, t], c[i], T)
                        cx.close('earth: one point', one[i, t], c[i], T)
            continue
        for k in range(2):
            one = calc.calc_velrot(P[:, k], to_earth=earth)
            for t in range(n):
                c = cross([w[i, t] for i in range(3)], [P[i, k] - IMU[i] for i in range(3)])
                for i in range(3):
                    cx.close('omega x r of each point', q[i, k, t], c[i], T)
                    cx.close('one point', one[i, t], c[i], T)


def harnesses(tier):
    hs = [filtered(True, 0.1, None), filtered(False, 0.1, None), filtered(True, 0.2, 0.05), filtered(False, 0.05, 0),
          filtered(True, 0, 0.1), filtered(True, 0.15, None, False), Harness('default', default, bounds='10 samples'),
          attitude_any(True), attitude_any(False), duty(True), duty(False), duty(True, 0, 0), duty(False, 0, 0.1), duty(True, 0.2, 0),
          Harness('frames', frames, bounds='10 samples, changing attitude', timeout=40), probes(None), probes(SWAP),
          Harness('points', points, bounds='2 points, 2 samples')]
    hs += [filtered(e, a, b) for e in (True, False) for a in (0.02, 0.4) for b in (None, 0.01, 0.3)]
    if tier != 'quick':
        hs += [filtered(e, a, b) for e in (True, False) for a in (0.01, 0.08, 0.3) for b in (None, 0.02, 0.12)]
    return hs
