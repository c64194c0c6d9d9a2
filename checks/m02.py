"""M02: motion correction refuses unusable data and leaves its input alone."""
import warnings
from symx.runner import Harness
from checks.rotlib import *
from checks.m01 import record, omats, correct_motion
import dolfyn


def refuse(cx):
    n = 10
    O = omats(n)
    a = cx.reals('accel', (3, n), -3, 3, nan=True)
    w = cx.reals('angrt', (3, n), -3, 3, nan=True)
    v = cx.reals('vel', (3, n), -3, 3)
    ds, vals = record(cx, n, O, vals=[v, a, w, v * 1.0])
    bad = cx.any([cx.isnan(x) for x in list(arr(a).ravel()) + list(arr(w).ravel())])
    try:
        correct_motion(ds, accel_filtfreq=0.1)
        ok = True
    except Exception:
        ok = False
    cx.check('refused exactly when a sensor sample is missing', cx.any([cx.all([bad, not ok]), cx.all([cx.not_(bad), ok])]))
    cx.check('input frame', ds.attrs['coord_sys'] == 'inst' and 'velrot' not in ds)


def twice(cx):
    n = 10
    O = omats(n)
    ds, vals = record(cx, n, O)
    keep = {k: arr(ds[k]).copy() for k in ds.data_vars}
    at = {k: (list(x) if isinstance(x, list) else x) for k, x in ds.attrs.items()}
    for earth in (True, False):
        d = correct_motion(ds, accel_filtfreq=0.1, to_earth=earth)
        cx.raises('second correction', Exception, correct_motion, d, accel_filtfreq=0.1)
        d2 = d.drop_vars('velrot')
        cx.raises('second correction without velrot', Exception, correct_motion, d2, accel_filtfreq=0.1)
        for k in ds.data_vars:
            cx.close('input data untouched: ' + k, ds[k].values, keep[k], 0)
        cx.check('input variables', set(ds.data_vars) == set(keep))
        cx.check('input attributes', {k: (list(x) if isinstance(x, list) else x) for k, x in ds.attrs.items()} == at)
        cx.check('new variables follow rotations', set(d.attrs['rotate_vars']) == {'vel', 'accel', 'angrt', 'mag', 'velrot', 'velacc', 'acclow', 'vel_raw'}
                 and len(d.attrs['rotate_vars']) == 8)
    # vel_raw must not follow later changes of vel
    d = correct_motion(ds, accel_filtfreq=0.1)
    r0 = arr(d['vel_raw']).copy()
    d['vel'].values = d['vel'].values * 2
    cx.close('vel_raw is a copy', d['vel_raw'].values, r0, 0)


def needs(cx):
    n = 10
    O = omats(n)
    ds, vals = record(cx, n, O)

    def without(**k):
        d = ds.copy(deep=True)
        for q in k.get('attrs', ()):
            d.attrs.pop(q)
        return d.drop_vars(list(k.get('vars', ())))
    cx.raises('no IMU flag', Exception, correct_motion, without(attrs=['has_imu']))
    cx.raises('no acceleration', Exception, correct_motion, without(vars=['accel']))
    cx.raises('no turn rate', Exception, correct_motion, without(vars=['angrt']))
    cx.raises('no head position', Exception, correct_motion, without(attrs=['inst2head_vec']))
    d = ds.copy(deep=True)
    d['inst2head_rotmat'].values = np.diag([1.0, 1.0, -1.0])
    cx.raises('head matrix is not a rotation', Exception, correct_motion, d)
    d = ds.copy(deep=True)
    d.attrs['inst2head_rotmat_was_set'] = 0
    cx.raises('head matrix not set', Exception, correct_motion, d)
    d = ds.copy(deep=True)
    d.attrs['inst_model'] = 'Signature1000'
    cx.raises('unknown sensor position', Exception, correct_motion, d, accel_filtfreq=0.1)


def interval(cx):
    """bursts that do not keep the configured interval are refused"""
    n, k = 30, 10
    O = omats(n)
    ds, vals = record(cx, n, O, vals=[cx.reals('vel', (3, n), -3, 3)] * 4, attrs=dict(duty_cycle_n_burst=k, duty_cycle_interval=60))
    t = times(k, 0.5)
    s = lambda x: np.timedelta64(x, 's')
    gap = pick(cx, 'gap2', 55, 65)
    both = cx.bool('both')
    both = bool(both)
    d = ds.assign_coords(time=('time', np.concatenate([t, t + s(gap if both else 60), t + s((gap if both else 60) + gap)])))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            correct_motion(d, accel_filtfreq=0.1)
            ok = True
        except Exception:
            ok = False
    if abs(gap - 60) > 2:
        cx.check('refused', not ok)
    elif abs(gap - 60) <= 1:
        cx.check('accepted', ok)


def late(cx):
    """one burst, or all from one on, comes late or early"""
    n, k = 40, 10
    ds, vals = record(cx, n, omats(n), vals=[cx.reals('vel', (3, n), -3, 3)] * 4, attrs=dict(duty_cycle_n_burst=k, duty_cycle_interval=60))
    pos, off = pick(cx, 'position', 1, 3), pick(cx, 'offset', -7, 7) * 2
    alone = bool(cx.bool('alone'))
    if alone:
        ds.attrs['duty_cycle_interval'] = 60.
    at = [60 * b + (off if b == pos or (b > pos and not alone) else 0) for b in range(4)]
    t = times(k, 0.5)
    d = ds.assign_coords(time=('time', np.concatenate([t + np.timedelta64(a, 's') for a in at])))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            correct_motion(d, accel_filtfreq=0.1)
            ok = True
        except Exception:
            ok = False
    if abs(off) > 3:
        cx.check('late burst refused', not ok)
    elif off == 0:
        cx.check('accepted', ok)


def harnesses(tier):
    return [Harness('missing', refuse, bounds='10 samples, any pattern of missing sensor values', max_paths=130),
            Harness('twice', twice, bounds='10 samples'), Harness('needs', needs, bounds='10 samples'),
            Harness('interval', interval, bounds='3 bursts of 10, gaps of 55..65 s for a nominal 60 s', max_paths=60),
            Harness('late', late, bounds='4 bursts of 10, one or all from one on up to 14 s off', max_paths=100)]
