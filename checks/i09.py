"""I09: Nortek Signature files: what each record decodes to."""
import numpy as np
import warnings
from symx.runner import Harness
from checks.common import arr, pick, quiet_log
from checks import swire as W
from dolfyn.io import nortek2
from dolfyn.io import nortek2_lib as lib


def load(cx, recs, tail=b'', **kw):
    p = cx.file(cx.mkbytes([r.b if hasattr(r, 'b') else r for r in recs] + [tail]), name=kw.pop('name', 'data.ad2cp'))
    kw.setdefault('userdata', False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return nortek2.read_signature(p, **kw)


def when(k, hz=1):
    """record k of a file at hz: across the end of a leap February"""
    t = np.datetime64('2020-02-29T23:59:58') + np.timedelta64(int(round(k * 1e6 / hz)), 'us')
    y, mo, d = str(t)[:10].split('-')
    h, mi, s = str(t)[11:19].split(':')
    return int(y), int(mo), int(d), int(h), int(mi), int(s), int(t.astype('datetime64[us]').astype(int) % 1000000 // 100)


def epoch(w):
    return np.datetime64('%04d-%02d-%02dT%02d:%02d:%02d' % w[:6]) + np.timedelta64(w[6] * 100, 'us')


def same_time(t, w):
    return abs((t - epoch(w)) / np.timedelta64(1, 'us')) < 50


SCALAR = ['c_sound', 'temp', 'pressure', 'heading', 'pitch', 'roll', 'batt', 'temp_clock', 'error', 'temp_press', 'xmit_energy',
          'le_dist_alt', 'le_quality_alt', 'status_alt', 'ast_dist_alt', 'ast_quality_alt', 'ast_offset_time_alt', 'pressure_alt',
          'nsamp_alt', 'dsamp_alt', 'pitch_std', 'roll_std', 'heading_std', 'press_std']


def compare(cx, ds, x, i, tag='', names=None, skip=(), rel=1e-6, tol=1e-4):
    """entry i of the dataset holds the values of the record"""
    for nm in x:
        if nm in skip or (names and nm not in names) or nm == 'mat':
            continue
        key = nm + tag
        if nm == 'prcnt_gd':
            cx.check('percent good', key in ds)
            if key not in ds:
                continue
        cx.check('has ' + nm, key in ds)
        if key not in ds:
            continue
        v = ds[key].values
        if nm in SCALAR:
            cx.close(nm, v[i], x[nm], tol, rel=rel)
        elif nm in ('mag', 'accel', 'angrt', 'quaternions', 'samp_alt', 'echo', 'prcnt_gd'):
            for j, w in enumerate(x[nm]):
                cx.close(nm, v[j, i], w, tol, rel=rel)
        elif nm in ('dist', 'fom') or (nm == 'vel' and tag == '_bt'):
            for j, w in enumerate(x[nm]):
                cx.close(nm, v[j, i], w, tol, rel=rel)
        elif tag == '_b5':
            for k, w in enumerate(x[nm][0]):
                cx.close(nm, v[k, i], w, tol, rel=rel)
        else:
            for j in range(len(x[nm])):
                for k, w in enumerate(x[nm][j]):
                    cx.close(nm, v[j, k, i], w, tol, rel=rel)
    if 'mat' in x and (not names or 'mat' in names):
        v = ds['orientmat' + tag].values
        for j in range(3):
            for k in range(3):
                cx.close('orientmat', v[k, j, i], x['mat'][3 * j + k], 1e-5, rel=1e-6)


def burst(name, n=3, sym=(1,), flags=('vel', 'amp', 'corr'), nb=4, nc=2, vscale=-3, skip=(), debug=False, **kw):
    def f(cx):
        recs, xs = [W.config(cx, **kw)], []
        for i in range(n):
            r, x = W.burst(cx, 'b%d' % i, ens=i + 1, when=when(i, 4), sym=i in sym, flags=flags, nb=nb, nc=nc, vscale=vscale, cs='cs')
            recs.append(r)
            xs.append(x)
        if debug:
            with quiet_log():
                ds = load(cx, recs, debug=True)
        else:
            ds = load(cx, recs)
        cx.check('all samples', ds['time'].shape == (n,))
        for i in range(n):
            cx.check('time', same_time(ds['time'].values[i], when(i, 4)))
            compare(cx, ds, xs[i], i, skip=skip)
            cx.check('ensemble', ds['ensemble'].values[i] == i + 1)
        ah = 'ahrs' in flags
        cx.check('imu', int(ds.attrs['has_imu']) == ah and ('angrt' in ds.attrs['rotate_vars']) == ah)
    return Harness(name, f, bounds='%d bursts of %d beams, %d cells, any bytes in %s' % (n, nb, nc, list(sym)))



def attrs(cx):
    """configuration fields of the records and the header text"""
    cell, blank = pick(cx, 'cell', 200, 203), pick(cx, 'blank', 10, 12)
    nom, pw = pick(cx, 'nominal', 50, 52), pick(cx, 'power', -21, -20)
    sr, theta = ('4', '8', '0.5')[pick(cx, 'sr', 0, 2)], (20, 25)[pick(cx, 'theta', 0, 1)]
    cy = ('ENU', 'XYZ', 'beam')[pick(cx, 'cy', 0, 2)]
    st, wake = pick(cx, 'orient', 0, 6), pick(cx, 'wake', 0, 3)
    st = 7 if st == 6 else st
    auto = (0, 1, 3)[pick(cx, 'auto', 0, 2)]
    extra = pick(cx, 'low', 0, 1) << 17 | pick(cx, 'active', 0, 1) << 16 | pick(cx, 'tele', 0, 1) << 11 | pick(cx, 'boost', 0, 1) << 10
    idle = pick(cx, 'idle', 0, 7)
    xf = [[.5 * (i == j) + .1 * i - .2 * j for j in range(4)] for i in range(4)]
    recs = [W.config(cx, sr=sr, theta=theta, xf=xf)]
    for i in range(2):
        recs.append(W.burst(cx, 'b%d' % i, ens=i + 1, when=when(i), sym=False, cy=cy, cell=cell, blank=blank, nomcorr=nom,
                            power=pw, st=W.status(st, wake, auto, extra), status0=0x8000 | idle)[0])
    ds = load(cx, recs)
    a = ds.attrs
    cx.check('coord_sys', a['coord_sys'] == {'ENU': 'earth', 'XYZ': 'inst', 'beam': 'beam'}[cy])
    cx.close('cell_size', a['cell_size'], cell * .001, 1e-9)
    cx.close('blank_dist', a['blank_dist'], blank * .01, 1e-9)
    cx.check('nominal_corr', a['nominal_corr'] == nom)
    cx.check('power', a['power_level_dB'] == pw)
    cx.check('serial', a['SerialNum'] == 101010)
    cx.close('ambiguity velocity', a['ambig_vel'], 1.234, 1e-6)
    cx.check('sizes', a['n_cells'] == 2 and a['n_beams'] == 4)
    cx.close('fs', a['fs'], float(sr), 0)
    cx.check('beam angle', a['beam_angle'] == theta)
    cx.check('model', a['inst_model'] == 'Signature1000' and a['inst_make'] == 'Nortek' and a['inst_type'] == 'ADCP')
    cx.check('orientation', a['orientation'] == {4: 'up', 5: 'down', 7: 'AHRS'}.get(st, 'horizontal'))
    cx.check('orient_status', a['orient_status'] == {0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}[auto])
    cx.check('wakeup', a['wakeup_state'] == ['bad power', 'power on', 'break', 'clock'][wake])
    for nm, b in [('low_volt_skip', 17), ('active_config', 16), ('telemetry_data', 11), ('boost_running', 10)]:
        cx.check(nm, int(ds[nm].values[1]) == extra >> b & 1)
    for nm, b in [('proc_idle_less_3pct', 0), ('proc_idle_less_6pct', 1), ('proc_idle_less_12pct', 2)]:
        cx.check(nm, int(a[nm]) == idle >> b & 1)
    cx.check('no imu', a['has_imu'] == 0)
    for k in range(2):
        cx.close('range', ds['range'].values[k], (k + 1) * cell * .001 + blank * .01, 1e-6)
    for i in range(4):
        for j in range(4):
            cx.close('matrix', ds['beam2inst_orientmat'].values[i, j], xf[i][j], 1e-4)


def attrs_only(**names):
    """the same, with the named picks free and the others at their first value"""
    def f(cx):
        class C:
            def __getattr__(self, n):
                return getattr(cx, n)

            def int(self, name, lo, hi):
                return cx.int(name, lo, hi) if name in names['of'] else lo
        attrs(C())
    return Harness('attrs_' + names['of'][0], f, bounds='2 bursts; every value of ' + ', '.join(names['of']))


def beam5(n=2, nc5=2, sym=(1,)):
    """a fifth beam beside the burst: shared sensors are averaged"""
    def f(cx):
        recs, xs, x5 = [W.config(cx)], [], []
        for i in range(n):
            only = ('c', 't', 'p', 'tp', 'bat', 'mag0', 'mag1', 'mag2', 'acc1', 'acc2', 'xm', 'tc', 'err')
            r, x = W.burst(cx, 'b%d' % i, ens=i + 1, when=when(i, 4), sym=i in sym, only=only)
            recs.append(r)
            xs.append(x)
            w = when(i + .03, 4)
            r, x = W.burst(cx, 'f%d' % i, id=24, nb=1, nc=nc5, ens=i + 1, when=w, sym=i in sym, vscale=-4, cell=250, blank=30, only=only)
            recs.append(r)
            x5.append(x)
        ds = load(cx, recs)
        both = ['c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt']
        ang = ['heading', 'pitch', 'roll']
        cx.check('samples', ds['time'].shape == (n,) and ds['time_b5'].shape == (n,))
        for i in range(n):
            compare(cx, ds, xs[i], i, skip=both + ang)
            compare(cx, ds, x5[i], i, '_b5', skip=both + ang)
            for nm in both:
                cx.close(nm, ds[nm].values[i], (xs[i][nm] + x5[i][nm]) / 2, 1e-4, rel=1e-6)
                cx.check(nm + ' once', nm + '_b5' not in ds)
            cx.check('time', same_time(ds['time'].values[i], when(i, 4)) and same_time(ds['time_b5'].values[i], when(i + .03, 4)))
        for k in range(nc5):
            cx.close('range_b5', ds['range_b5'].values[k], .3 + .25 * (k + 1), 1e-6)
        cx.check('config', ds.attrs['cell_size'] == .5 and ds.attrs['cell_size_b5'] == .25 and ds.attrs['n_beams_b5'] == 1)
    return Harness('beam5', f, bounds='%d bursts of 4 x 2 and fifth-beam records of %d cells' % (n, nc5))


def bottom(n=2, sym=(0, 1), flags=('vel', 'dist', 'fom')):
    def f(cx):
        recs, xs, xb = [W.config(cx)], [], []
        for i in range(n):
            r, x = W.burst(cx, 'b%d' % i, ens=i + 1, when=when(i, 4), sym=False, dsym=i in sym)
            recs.append(r)
            xs.append(x)
            r, x = W.bt(cx, 't%d' % i, ens=i + 1, when=when(i + .5, 4), sym=i in sym, vscale=-5, flags=flags)
            recs.append(r)
            xb.append(x)
        ds = load(cx, recs)
        for i in range(n):
            compare(cx, ds, xs[i], i)
            compare(cx, ds, xb[i], i, '_bt', skip=('error', 'mag'))
            for j in range(3):
                cx.close('bottom-track magnetometer', ds['mag_bt'].values[j, i], xb[i]['mag'][j], 1e-3, rel=1e-6)
            cx.close('error', ds['error_bt'].values[i], xb[i]['error'], 0)
            cx.check('time', same_time(ds['time_bt'].values[i], when(i + .5, 4)))
        cx.check('rotated', 'vel_bt' in ds.attrs['rotate_vars'] and 'mag_bt' in ds.attrs['rotate_vars'])
        cx.check('dims', ds['vel_bt'].dims == ('dir', 'time_bt') and ds['dist_bt'].dims == ('beam', 'time_bt'))
    return Harness('bottom', f, bounds='%d bursts with bottom track' % n)


def echosounder(n=2, nc=3, sym=(0, 1)):
    def f(cx):
        recs, xs, xe = [W.config(cx)], [], []
        for i in range(n):
            r, x = W.burst(cx, 'b%d' % i, ens=i + 1, when=when(i, 4), sym=False, dsym=i in sym)
            recs.append(r)
            xs.append(x)
            r, x = W.echo(cx, 'e%d' % i, nc=nc, ens=i + 1, when=when(i + .5, 4), sym=i in sym)
            recs.append(r)
            xe.append(x)
        ds = load(cx, recs)
        for i in range(n):
            compare(cx, ds, xs[i], i)
            compare(cx, ds, xe[i], i, '_echo', skip=('echo',))
            compare(cx, ds, xe[i], i, names=('echo',))
            cx.check('time', same_time(ds['time_echo'].values[i], when(i + .5, 4)))
        for k in range(nc):
            cx.close('range_echo', ds['range_echo'].values[k], .5 + .006 * (k + 1), 1e-6)
    return Harness('echo', f, bounds='%d bursts with %d echosounder cells' % (n, nc))


def average(n=2, nb=4, nc=3, ah=True, sym=(0, 1), pg=False, **kw):
    """averages only"""
    def f(cx):
        recs, xs = [W.config(cx, miavg=600, ai=120, **kw)], []
        fl = ('vel', 'amp', 'corr') + (('ahrs',) if ah else ()) + (('p_gd',) if pg else ())
        for i in range(n):
            r, x = W.burst(cx, 'a%d' % i, id=22, nb=nb, nc=nc, ens=i + 1, when=when(600 * i), flags=fl, sym=i in sym, cy='XYZ')
            recs.append(r)
            xs.append(x)
        ds = load(cx, recs)
        cx.check('samples', ds['time_avg'].shape == (n,))
        for i in range(n):
            compare(cx, ds, {k: v for k, v in xs[i].items() if k != 'mat'}, i, '_avg')
            if ah:
                compare(cx, ds, {'mat': xs[i]['mat']}, i)
            cx.check('time', same_time(ds['time_avg'].values[i], when(600 * i)) and same_time(ds['time'].values[i], when(600 * i)))
        for k in range(nc):
            cx.close('range_avg', ds['range_avg'].values[k], .2 + .5 * (k + 1), 1e-6)
        a = ds.attrs
        cx.check('attrs', a['fs'] == 600 and a['avg_interval_sec'] == 120 and a['coord_sys'] == 'inst' and 'vel_avg' in a['rotate_vars'])
    return Harness('average%d%s%s' % (nb, '_pg' if pg else '', '' if ah else '_noimu'), f, bounds='%d averages of %d beams, %d cells' % (n, nb, nc))


def mixed(b5=True, ec=True, sym=(0,)):
    """bursts, averages, fifth beam and echogram, each with its own cells"""
    def f(cx):
        recs, xs = [W.config(cx, miavg=2, ai=1)], {21: [], 22: [], 24: [], 28: []}
        lay = {21: (500, 20, 2), 22: (1000, 30, 3)}
        if b5:
            lay[24] = 250, 45, 2
        if ec:
            lay[28] = 6, 500, 3
        n, at = 5, {}
        for i in range(n):
            for id in lay:
                if id == 22 and i not in (0, 2):
                    continue
                c, b, nc = lay[id]
                kw = dict(ens=len(xs[id]) + 1, nc=nc, cell=c, blank=b, sym=False, dsym=i in sym, when=when(i + .01 * id))
                at.setdefault(id, []).append(when(i + .01 * id))
                r, x = W.echo(cx, 'e%d' % i, **kw) if id == 28 else W.burst(cx, 'r%d_%d' % (id, i), id=id, nb=1 if id == 24 else 4, **kw)
                recs.append(r)
                xs[id].append(x)
        out = load(cx, recs)
        cx.check('two datasets', isinstance(out, tuple))
        a, b = out
        for id, tag, ds in ((21, '', a), (22, '_avg', b), (24, '_b5', a), (28, '_echo', a)):
            if id not in lay:
                continue
            c, bl, nc = lay[id]
            q = 1e-3
            cx.check('cells', ds['range' + tag].shape == (nc,))
            for k in range(nc):
                cx.close('range' + tag, ds['range' + tag].values[k], bl * (.01 if id != 28 else q) + c * q * (k + 1), 1e-6)
            for i, x in enumerate(xs[id]):
                if id == 28:
                    compare(cx, ds, x, i, names=('echo',))
                else:
                    compare(cx, ds, x, i, tag, names=('vel', 'amp', 'corr'))
                cx.check('time', same_time(ds['time' + tag].values[i], at[id][i]))
    return Harness('mixed%s%s' % ('_b5' if b5 else '', '_echo' if ec else ''), f, bounds='5 bursts and 2 averages, any data in one ensemble')


def headings(nm):
    """burst and fifth-beam headings, pitches or rolls: the direction between"""
    def f(cx):
        lo, hi = {'heading': (0, 35999), 'pitch': (-9000, 9000), 'roll': (-18000, 17999)}[nm]
        key = {'heading': 'hd', 'pitch': 'pt', 'roll': 'rl'}[nm]
        u, v = cx.int('u', lo, hi), cx.int('v', lo, hi)
        recs = [W.config(cx)]
        for i in range(2):
            for id, nb, q in [(21, 4, u), (24, 1, v)]:
                g = {'hd': 0, 'pt': 0, 'rl': 0}
                g[key] = q
                k = dict(give=g) if i == 0 else {}
                recs.append(W.burst(cx, 'b%d%d' % (id, i), id=id, nb=nb, sym=False, ens=i + 1, when=when(i), **k)[0])
        ds = load(cx, recs)
        got = ds[nm].values[0] * (np.pi / 180)
        a, b = u * (np.pi / 18000), v * (np.pi / 18000)
        C, S = np.cos(a) + np.cos(b), np.sin(a) + np.sin(b)
        cx.close(nm, C * np.sin(got) - S * np.cos(got), 0, 1e-5)
        cx.check(nm + ' side', C * np.cos(got) + S * np.sin(got) >= -1e-5)
    return Harness('between_' + nm, f, bounds='every pair of angles of burst and fifth beam')


def harnesses(tier):
    return [burst('burst'), burst('burst_ahrs', n=2, sym=(0,), flags=('vel', 'amp', 'corr', 'ahrs')),
            burst('burst_alt', n=2, sym=(0, 1), flags=('vel', 'amp', 'corr', 'le', 'ast')),
            burst('burst_std', n=2, sym=(0, 1), flags=('vel', 'amp', 'corr', 'ahrs', 'std')),
            burst('burst_pg', n=2, sym=(0, 1), flags=('vel', 'amp', 'corr', 'p_gd')),
            burst('burst_all', n=2, sym=(1,), flags=('vel', 'amp', 'corr', 'le', 'ast', 'ahrs', 'std')),
            burst('burst_scale', n=2, sym=(1,), vscale=-4),
            burst('burst_vel', n=2, sym=(1,), flags=('vel',), nc=3),
            burst('burst_3beam', n=2, sym=(1,), nb=3, nc=2, xf=[r[:3] for r in W.XF4[:3]]),
            attrs_only(of=['cell', 'blank']), attrs_only(of=['nominal', 'power', 'sr', 'theta']),
            attrs_only(of=['orient', 'wake']), attrs_only(of=['auto', 'idle']), attrs_only(of=['low', 'active', 'tele', 'boost']),
            attrs_only(of=['cy']), beam5(), bottom(), echosounder(), average(), average(nb=3, ah=False, nc=3, xf=[r[:3] for r in W.XF4[:3]]), average(ah=False, nc=4), average(nb=3, nc=2, xf=[r[:3] for r in W.XF4[:3]]), average(pg=True),
            burst('debug', n=2, sym=(0, 1), debug=True), mixed(), mixed(b5=False, ec=False), headings('heading'), headings('pitch'), headings('roll')]
