PRE = '''
import numpy as np, xarray as xr, dolfyn, warnings
warnings.simplefilter('ignore')
def mk(kind, coord, vel, n, heading=20., pitch=5., roll=-7., fs=1., **attrs):
    mod = {'vector': ('Nortek', 'Vector'), 'signature': ('Nortek', 'Signature1000'), 'rdi': ('TRDI', 'Workhorse'), 'awac': ('Nortek', 'AWAC')}[kind]
    nb = vel.shape[0]
    t = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(int(1e9 / fs), 'ns')
    names = {3: ['X', 'Y', 'Z'], 4: ['X', 'Y', 'Z1', 'Z2']}[nb]
    ds = xr.Dataset(coords={'time': t, 'dir': names, 'beam': np.arange(1, nb + 1)})
    if vel.ndim == 3:
        ds = ds.assign_coords(range=1. + np.arange(vel.shape[1]))
    ds['vel'] = (('dir', 'range', 'time')[:1] + (('range',) if vel.ndim == 3 else ()) + ('time',), np.array(vel, float), {'units': 'm s-1'})
    for nm, v in (('heading', heading), ('pitch', pitch), ('roll', roll)):
        ds[nm] = (('time',), np.zeros(n) + v)
    ds.attrs.update(inst_make=mod[0], inst_model=mod[1], coord_sys=coord, fs=fs, rotate_vars=['vel'], orientation='up')
    ds.attrs.update(attrs)
    return ds
rng = np.random.RandomState(3)
'''
MOT = PRE + '''
from dolfyn.rotate.vector import _euler2orient
def moving(n, fs=16., **attrs):
    t = np.arange(n) / fs
    ds = mk('vector', 'inst', np.zeros((3, n)), n, fs=fs, has_imu=1, inst2head_vec=[.1, .2, .5], inst2head_rotmat_was_set=1, motion_ok=1, **attrs)
    ds['heading'].values[:] = 20; ds['pitch'].values[:] = 0; ds['roll'].values[:] = 0
    ds = ds.assign_coords(dirIMU=['X', 'Y', 'Z'], x1=[1, 2, 3], x2=[1, 2, 3])
    ds['accel'] = (('dirIMU', 'time'), np.vstack([np.sin(5 * t), np.cos(4 * t), 9.8 + np.sin(3 * t)]))
    ds['angrt'] = (('dirIMU', 'time'), np.vstack([.1 * np.cos(5 * t), .2 * np.sin(4 * t), .3 * np.sin(2 * t)]))
    ds['inst2head_rotmat'] = (('x1', 'x2'), np.eye(3))
    ds['beam2inst_orientmat'] = (('x1', 'x2'), np.array([[2.7, -1.4, -1.3], [0, 2.4, -2.4], [.35, .35, .35]]))
    ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
    ds.attrs['rotate_vars'] = ['vel', 'accel', 'angrt']
    return ds
from dolfyn.adv import api
'''

seed('M01-burst-mean', 'M01', [('dolfyn/adv/motion.py', """            acc[:] = acc.mean(-1)[..., None]
""", """            acc[:] = acc.reshape(acc.shape[0], -1).mean(-1).reshape(
                (-1,) + (1,) * (acc.ndim - 1))
""")], MOT + '''
n = 64
ds = moving(2 * n, duty_cycle_n_burst=n, duty_cycle_interval=4.)
ds['accel'].values[0, n:] += 1.            # a different constant in the second burst
out = api.correct_motion(ds, accel_filtfreq=0., vel_filtfreq=0., to_earth=False)
one = api.correct_motion(moving(n), accel_filtfreq=0., vel_filtfreq=0., to_earth=False)
assert np.allclose(out['velacc'].values[:, :n], one['velacc'].values, atol=1e-5)
''', 'a burst record with accel_filtfreq=0', 'the mean acceleration of the whole record is removed from each burst')

seed('M01-probe-order', 'M01', [('dolfyn/adv/motion.py', """        theta = np.deg2rad(np.array([0., 120., 240.]))
""", """        theta = -np.deg2rad(np.array([0., 120., 240.]))
""")], MOT + '''
ds = moving(40)
out = api.correct_motion(ds, accel_filtfreq=.1, to_earth=False, separate_probes=True)
r = .076; th = np.deg2rad([0, 120., 240.]); phi = np.deg2rad(-30)
pos = np.array([r * np.cos(th), r * np.sin(th), r * np.tan(phi) * np.ones(3)]) + np.array([.1, .2, .5])[:, None]
b2i = np.array([.0, .0, -.21]); T = ds['beam2inst_orientmat'].values; w = ds['angrt'].values
from dolfyn.adv.motion import _get_body2imu
from dolfyn.rotate.base import _make_model
pos = pos - _get_body2imu(_make_model(ds))[:, None]
exp = np.zeros((3, 40))
for k in range(40):
    vb = np.array([(np.linalg.inv(T) @ np.cross(w[:, k], pos[:, j]))[j] for j in range(3)])
    exp[:, k] = T @ vb
assert np.allclose(out['velrot'].values, exp, atol=1e-5)
''', 'motion correction at the separate probe tips', 'the positions of probes 2 and 3 are exchanged')

seed('M02-steady-clock', 'M02', [('dolfyn/adv/motion.py', """        rng = actual_interval.max() - actual_interval.min()
""", """        rng = actual_interval[-1] - actual_interval[0]
""")], MOT + '''
n = 20
ds = moving(4 * n, fs=16., duty_cycle_n_burst=n, duty_cycle_interval=11)
t = ds.time.values.copy()
for i, late in enumerate((0, 0, 60, 0)):
    t[i * n:(i + 1) * n] += np.timedelta64(9750 * i * 10**6 + late * 10**9, 'ns')
ds = ds.assign_coords(time=t)
try:
    api.correct_motion(ds, accel_filtfreq=.1)
except Exception as e:
    assert 'uty cycle' in str(e), repr(e)
else:
    raise AssertionError('bad bursts were accepted')
ok = moving(4 * n, fs=16., duty_cycle_n_burst=n, duty_cycle_interval=11)
t = ok.time.values + np.repeat(np.arange(4) * np.timedelta64(9750 * 10**6, 'ns'), n)
ok = ok.assign_coords(time=t)
api.correct_motion(ok, accel_filtfreq=.1)
''', 'bursts one of which, in the middle, comes late', 'a record whose bursts miss the configured interval is corrected all the same')

seed('C01-tail-window', 'C01', [('dolfyn/adv/clean.py', """        extra_mean = np.nanmean(extra, axis=-1)
""", """        extra_mean = np.nanmean(var[:, -extra.shape[-1]:], axis=-1)
""")], PRE + '''
from dolfyn.adv import api
n = 23
u = xr.DataArray(np.arange(n) ** 2 * 1., dims=['time'], coords={'time': np.arange(n) * 1.})
m = np.zeros(n, bool); m[21] = True
out = api.clean.fill_nan_ensemble_mean(u.copy(), m, 1, 10)
assert np.allclose(out.values[21], np.mean([400., 484.])), out.values[21]
''', 'a flagged sample after the last whole window', 'samples of the window before take part in the mean')

seed('C02-offset-origin', 'C02', [('dolfyn/adp/clean.py', """        range_limit = ((ds.depth-ds.h_deploy) * np.cos(beam_angle) -
                       ds.cell_size) + ds.h_deploy
""", """        range_limit = ds.depth * np.cos(beam_angle) - ds.cell_size
""")], PRE + '''
from dolfyn.adp import api
ds = mk('signature', 'beam', rng.randn(4, 40, 3), 3, cell_size=.5, beam_angle=25)
ds['range'].values
ds = ds.assign_coords(range=.5 + .5 * np.arange(40))
api.clean.set_range_offset(ds, 3.)
ds['depth'] = (('time',), np.array([12., 15., 18.]))
out = api.clean.nan_beyond_surface(ds)
for i, d in enumerate((12., 15., 18.)):
    lim = (d - 3) * np.cos(np.deg2rad(25)) - .5 + 3
    assert (np.isnan(out.vel.values[0, :, i]) == (ds.range.values > lim)).all(), d
''', 'a height above the seabed was set before', 'the side-lobe limit counts from the seabed instead of the instrument, so good cells are removed')

seed('C02-int-fill', 'C02', [('dolfyn/adp/clean.py', """        ds['echo'].values[..., bds_echo] = val
        var.remove('echo')
""", """        ds['echo'].values[..., bds_echo] = val
        var.remove('echo')
        bds = bds_echo.rename(range_echo='range') if bds_echo.shape == bds.shape else bds
""")], PRE + '''
from dolfyn.adp import api
ds = mk('signature', 'beam', rng.randn(4, 20, 2), 2, cell_size=1., beam_angle=25)
ds = ds.assign_coords(range_echo=ds.range.values)
ds['echo'] = (('range_echo', 'time'), rng.randn(20, 2))
ds['depth'] = (('time',), np.array([12., 15.]))
out = api.clean.nan_beyond_surface(ds)
for i, d in enumerate((12., 15.)):
    assert (np.isnan(out.vel.values[0, :, i]) == (ds.range.values > d * np.cos(np.deg2rad(25)) - 1)).all()
    assert (np.isnan(out.echo.values[:, i]) == (ds.range_echo.values > d)).all()
''', 'an echo sounder with as many cells as the velocity profile', 'velocity cells inside the side-lobe layer are kept')

seed('C03-index-time', 'C03', [('dolfyn/adp/clean.py', """    return var.interpolate_na(dim=time_dim, method=method,
                              use_coordinate=True,
""", """    return var.interpolate_na(dim=time_dim, method=method,
                              use_coordinate=var.ndim > 2,
""")], PRE + '''
from dolfyn.adp import api
t = np.array([0, 1, 4, 5, 9, 10]).astype('timedelta64[s]') + np.datetime64('2020-01-01', 'ns')
v = np.array([0, 1, np.nan, 5, np.nan, 10.])
a = xr.DataArray(np.vstack([v, 2 * v]), dims=['range', 'time'], coords={'range': [1., 2.], 'time': t})
out = api.clean.fillgaps_time(a, method='linear')
assert np.allclose(out.values[0], [0, 1, 4, 5, 9, 10]) and np.allclose(out.values[1], [0, 2, 8, 10, 18, 20]), out.values
''', 'irregular times and a variable of one or two dimensions', 'gaps are filled by sample number instead of time')

seed('C03-corr-b5', 'C03', [('dolfyn/adp/clean.py', """    rotate2(ds, coord_sys_orig, inplace=True)

    if not inplace:
        return ds


def medfilt_orient""", """    rotate2(ds, 'earth' if coord_sys_orig == 'principal' else coord_sys_orig,
            inplace=True)

    if not inplace:
        return ds


def medfilt_orient""")], PRE + '''
from dolfyn.adp import api
from dolfyn.rotate.vector import _euler2orient
ds = mk('signature', 'beam', rng.randn(4, 3, 4), 4, cell_size=1., beam_angle=25, has_imu=0)
ds = ds.assign_coords(x1=[1, 2, 3, 4], x2=[1, 2, 3, 4])
ds['beam2inst_orientmat'] = (('x1', 'x2'), np.array([[1.18, 0, -1.18, 0], [0, -1.18, 0, 1.18], [.55, 0, .55, 0], [0, .55, 0, .55]]))
ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
ds['corr'] = (('beam', 'range', 'time'), 50 + 50 * rng.rand(4, 3, 4), {'units': '%'})
ds['amp'] = (('beam', 'range', 'time'), 50 + 50 * rng.rand(4, 3, 4))
ds.attrs['principal_heading'] = 30.
dolfyn.rotate2(ds, 'principal')
out = api.clean.correlation_filter(ds, thresh=10)
assert out.coord_sys == 'principal'
assert np.allclose(out.vel, ds.vel, atol=1e-4)
''', 'data in the principal frame', 'the filtered data come back in the earth frame')

seed('A01-down-default', 'A01', [('dolfyn/adp/turbulence.py', """            return out, vel.range[1:]
""", """            return out, vel.range[:-1]
""")], PRE + '''
from dolfyn.adp.turbulence import ADPBinner
r = 1. + np.arange(5)
v = xr.DataArray(np.stack([(r ** 2)[:, None] + np.zeros((5, 2))] * 3), dims=['dir', 'range', 'time'], coords={'range': r, 'time': [0., 1.], 'dir': ['E', 'N', 'U']})
for style, cells in (('first', r[1:]), ('centered', r[1:-1]), ('centered_extended', r)):
    o = ADPBinner(n_bin=4, fs=1, diff_style=style).calc_dwdz(v)
    assert (o.range.values == cells).all(), style
''', 'first differences', 'the shear is labelled one cell too low')

seed('A02-phi-swap', 'A02', [('dolfyn/adp/turbulence.py', """        denm = 4 * np.sin(np.deg2rad(b_angle)) * np.cos(np.deg2rad(b_angle))
        upwp_ =""", """        denm = 2 * np.sin(2 * np.deg2rad(int(b_angle)))
        upwp_ =""")], PRE + '''
from dolfyn.adp.turbulence import ADPBinner
ds = mk('signature', 'beam', rng.randn(4, 2, 64), 64, cell_size=1., beam_angle=22.5)
b = ADPBinner(n_bin=32, fs=1)
o = b.calc_stress_4beam(ds).values
v = ds.vel.values.reshape(4, 2, 2, 32); v = v.var(-1)
k = 4 * np.sin(np.deg2rad(22.5)) * np.cos(np.deg2rad(22.5))
assert np.allclose(np.sort(np.abs(o[1:].ravel())), np.sort(np.abs(np.stack([v[0] - v[2], v[1] - v[3]]).ravel() / k)), rtol=1e-3)
''', 'a beam angle that is not a whole number of degrees', 'stresses are scaled for the wrong beam angle')

seed('A03-top-cell', 'A03', [('dolfyn/adp/turbulence.py', '''            for i in range(D.shape[1], D.shape[0]):
''', '''            for i in range(D.shape[1], D.shape[0] - 1):
''')], PRE + '''
from dolfyn.adp.turbulence import ADPBinner
n = 16
v = xr.DataArray(rng.randn(8, n).cumsum(0), dims=['range', 'time'], coords={'range': 1. + np.arange(8), 'time': np.arange(n) * 1.})
e, no, D = ADPBinner(n_bin=8, fs=1).calc_dissipation_SF(v, r_range=[1, 4])
D = D.transpose('range', 'range_SF', 'time').values if D.dims != ('range', 'range_SF', 'time') else D.values
r = np.arange(1., 5.)
for i in range(4, 8):
    s, c = np.polyfit(r ** (2 / 3), D[i, :4, 0], 1)
    assert np.allclose(e.values[i, 0], (s / 2.1) ** 1.5, rtol=1e-3) or s < 0, i
    assert np.isfinite(e.values[i, 0]) == (s >= 0), i
''', 'the uppermost cell', 'the dissipation rate of the last cell is missing')

seed('H01-west-of-utc', 'H01', [('dolfyn/time.py', """        delta = timedelta(hours=offset_hr)
""", """        delta = timedelta(hours=offset_hr % 24)
""")], '''
import dolfyn, datetime
from dolfyn import time
for h in (-7, 0, 5, -12):
    t = time.epoch2date(1577836800. + 3600 * 3, offset_hr=h)[0]
    assert t == datetime.datetime(2020, 1, 1, 3) + datetime.timedelta(hours=h), (h, t)
''', 'a negative hour offset', 'the time is one day late')

seed('H01-lead-in', 'H01', [('dolfyn/time.py', """        delta = np.arange(-i0, 0, 1) * dt
""", """        delta = np.arange(-1, -i0 - 1, -1) * dt
""")], '''
import numpy as np
from dolfyn.time import _fill_time_gaps
for k in (1, 2, 4):
    e = 1000. + np.arange(8) / 4.
    x = e.copy(); x[:k] = np.nan
    assert np.allclose(_fill_time_gaps(x, 4.), e), k
''', 'two or more missing times at the start', 'the times at the start run backwards')

seed('N01-enc-string', 'N01', [('dolfyn/io/api.py', """        elif isinstance(ds.attrs[nm], str) and nm in ['rotate_vars']:
            ds.attrs[nm] = [ds.attrs[nm]]

    # Rejoin""", """        elif isinstance(ds.attrs[nm], str) and nm.endswith('_vars') and ',' in ds.attrs[nm]:
            ds.attrs[nm] = ds.attrs[nm].split(',')

    # Rejoin""")], PRE + '''
import tempfile, os
d = tempfile.mkdtemp()
ds = mk('vector', 'inst', rng.randn(3, 4), 4)
for rv in (['vel'], ['vel', 'accel']):
    ds.attrs['rotate_vars'] = rv
    dolfyn.save(ds, d + '/a.nc'); b = dolfyn.load(d + '/a.nc')
    assert list(b.attrs['rotate_vars']) == rv, b.attrs['rotate_vars']
    assert isinstance(b.attrs['rotate_vars'], list)
import shutil; shutil.rmtree(d)
''', 'a dataset with one vector only', 'the list of vectors loads as a string')

seed('N02-gap-times', 'N02', [('dolfyn/io/api.py', """        for ky in ds.attrs['time_data_vars']:
            dt = date2dt64(func(ds[ky].values))
            ds[ky].data = dt
""", """        for ky in ds.attrs['time_data_vars']:
            ds[ky].data = ds['time'].values[:ds[ky].size]
""")], PRE + '''
import tempfile, shutil
d = tempfile.mkdtemp()
ds = mk('rdi', 'inst', rng.randn(4, 5), 5, n_beams=4)
ds['hdwtime_gps'] = (('time',), ds.time.values + np.timedelta64(3, 's'))
for dn in (True, False):
    dolfyn.save_mat(ds, d + '/a.mat', datenum=dn); b = dolfyn.load_mat(d + '/a.mat', datenum=dn)
    assert np.abs((b['hdwtime_gps'].values - ds['hdwtime_gps'].values) / np.timedelta64(1, 'us')).max() < 200
shutil.rmtree(d)
''', 'a dataset with a second set of times, saved as MAT', 'the second times are replaced by the sample times')

seed('V01-notinplace', 'V01', [('dolfyn/velocity.py', """        return rotate2(self.ds, out_frame, inplace)
""", """        return rotate2(self.ds, out_frame, True)
""")], PRE + '''
from dolfyn.rotate.vector import _euler2orient
ds = mk('vector', 'inst', rng.randn(3, 4), 4)
ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
ref = ds.copy(deep=True)
out = ds.velds.rotate2('earth', inplace=False)
assert out is not None and out.coord_sys == 'earth'
assert ds.coord_sys == 'inst' and np.allclose(ds.vel, ref.vel)
''', 'dat.velds.rotate2 with inplace=False', 'the dataset itself is rotated')

FILE = '''
import os, sys, json, shutil, tempfile, warnings, io, contextlib
warnings.simplefilter('ignore')
import numpy as np, dolfyn
here = os.path.dirname(os.path.abspath(__file__))
seen = []
def norm(v):
    v = np.asarray(v)
    if v.dtype.kind == 'M': return [str(x) for x in v.astype('M8[us]').ravel()]
    if v.dtype.kind in 'fiub': return [float(x) for x in v.astype(float).ravel()]
    return [str(x) for x in v.ravel()]
def show(name, *pick, **kw):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, name); shutil.copy(os.path.join(here, name), p)
        for e in sorted(os.listdir(here)):
            if e.endswith('.userdata.json'): shutil.copy(os.path.join(here, e), d)
        with contextlib.redirect_stdout(io.StringIO()):
            out = dolfyn.read(p, **kw)
        for ds in (out if isinstance(out, (tuple, list)) else [out]):
            r = {'dims': {k: int(v) for k, v in ds.sizes.items()}}
            for k in ds.variables: r[k] = norm(ds[k].values)
            for k, v in ds.attrs.items():
                if isinstance(v, (int, float, str, np.number)) : r['@' + k] = norm(v)
            seen.append(r)
    finally:
        shutil.rmtree(d)
def same(a, b):
    if isinstance(a, dict): return a == b
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-5 * abs(y) + 1e-9): return False
        elif x != y: return False
    return True
def judge():
    f = os.path.join(here, 'expected.json')
    if os.environ.get('RECORD'): json.dump(seen, open(f, 'w'))
    want = json.load(open(f))
    assert len(want) == len(seen)
    for w, s in zip(want, seen):
        bad = [k for k in sorted(set(w) | set(s)) if k not in w or k not in s or not same(s[k], w[k])]
        assert not bad, bad
'''
def fseed(id, prop, edits, files, demo, needs, breaks):
    seed(id, prop, edits, FILE + demo + "\njudge()\n", needs, breaks, files=files)

fseed('I01-sl-trim', 'I01', [('dolfyn/io/rdi.py', '''                    dv[var] = dv[var][:cfg['n_cells_sl']]
''', '''                    dv[var] = dv[var][-cfg['n_cells_sl']:]
''')], [('i01', 'surface', 1)], "show('data.000')", 'a surface-layer profile with fewer cells than the main one', 'the empty cells of the surface-layer profile are kept instead of the measured ones')
fseed('I02-century', 'I02', [('dolfyn/io/rdi.py', '''                cent = fd.read_ui8(1)
                ens.rtc[:, k] = fd.read_ui8(7)
                ens.rtc[0, k] = ens.rtc[0, k] + cent * 100
                self._nbyte += 8
''', '''                fd.read_ui8(1)
                ens.rtc[:, k] = fd.read_ui8(7)
                ens.rtc[0, k] = ens.rtc[0, k] + 2000
                self._nbyte += 8
''')], [('i02', 'clock_1619', 2)], "show('data.000')", 'a clock in another century', 'the times are a century off')
fseed('I03-grow-zero', 'I03', [('dolfyn/io/rdi.py', '''                        a = np.empty(
                            (self.flag, ds.shape[1], ds.shape[2]))*np.nan
''', '''                        a = np.zeros(
                            (self.flag, ds.shape[1], ds.shape[2]))
''')], [('i03', 'growing', 1)], "show('data.000')", 'the cell count grows within the file', 'cells that were never measured hold zero velocity')
fseed('I04-range-msb', 'I04', [('dolfyn/io/rdi.py', '''            ens.dist_bt[:, k] = ens.dist_bt[:, k] + fd.read_ui8(4) * 655.36
''', '''            ens.dist_bt[:, k] = ens.dist_bt[:, k] + fd.read_ui8(4) * 65.536
''')], [('i04', 'bottom_16_28', 1)], "show('data.000')", 'a bottom deeper than 655 m', 'the range to the bottom is too short')
fseed('I05-gps-index', 'I05', [('dolfyn/io/rdi.py', '''        if 'gps' in key:
            dat['data_vars'][key] = dat['data_vars'][key][idx]
''', '''        if 'gps' in key:
            dat['data_vars'][key] = dat['data_vars'][key][:len(idx)]
''')], [('i05', 'sounder', 3)], "show('data.000')", 'repeated GPS times', 'GPS positions shift against their times')
fseed('I06-last-burst', 'I06', [('dolfyn/io/nortek.py', '''            num_bursts = int(len(t) // nburst + 1)
''', '''            num_bursts = max(int(len(t) // nburst), 1)
''')], [('i06', 'bursts_8_4_6_turned', 1)], "show([f for f in os.listdir(here) if f.startswith('data.')][0])", 'a file that ends within a burst', 'the samples of the last burst have no times of their own')
fseed('I07-cells-round', 'I07', [('dolfyn/io/nortek.py', '''        bd = round(self.config['blank_dist'] *
                   0.0229 * np.cos(h_ang) - cs, ndigits=2)
''', '''        bd = round(self.config['blank_dist'] *
                   0.0229 * np.cos(h_ang), ndigits=2) - round(cs, ndigits=1)
''')], [('i07', 'cells_1000', 1)], "show('data.wpr')", 'a cell size that is not a multiple of 0.1 m', 'the blanking distance and all cell positions are a few centimetres off')
fseed('I08-power-bits', 'I08', [('dolfyn/io/nortek.py', '''        cfg_u['usr']['power_level'] = TimCtrlReg[5] + 2 * TimCtrlReg[6] + 1
''', '''        cfg_u['usr']['power_level'] = 2 * TimCtrlReg[5] + TimCtrlReg[6] + 1
''')], [('i08', 'flags_timing', 1), ('i08', 'flags_timing', 2)], "show([f for f in sorted(os.listdir(here)) if f.startswith('data.')][0])", 'power level 2 or 3', 'power levels 2 and 3 are exchanged')
fseed('I09-blank-avg', 'I09', [('dolfyn/io/nortek2.py', '''        dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                           da['cell_size_avg'] +
                           da['blank_dist_avg'])
''', '''        dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                           da['cell_size_avg'] +
                           da.get('blank_dist', da['blank_dist_avg']))
''')], [('i11', 'dual_bbabb_b5', 1)], "show('data.ad2cp')", 'burst and average profiles with different blanking distances', 'the average profile is placed at the wrong ranges')
fseed('I10-altraw-stop', 'I10', [('dolfyn/io/nortek2.py', '''                    (self._index['ens'] < ens_stop)).sum()
''', '''                    (self._index['ens'] <= ens_stop)).sum()
''')], [('i10', 'altraw_2_w2', 1)], "show('data.ad2cp', nens=2)\nshow('data.ad2cp', nens=3)\nshow('data.ad2cp')", 'a raw altimeter ping in the first ensemble after the window', 'an empty raw altimeter ping is added')
fseed('I11-avg-frame', 'I11', [('dolfyn/io/nortek2.py', '''    ds2 = _set_coords(ds2, ref_frame=ds2.coord_sys)
''', '''    ds2.attrs['coord_sys'] = ds.coord_sys
    ds2 = _set_coords(ds2, ref_frame=ds2.coord_sys)
''')], [('i11', 'dual_bbbabb_noimu', 1)], "show('data.ad2cp')", 'averages recorded in another frame than the bursts', 'the average profiles are labelled with the frame of the bursts')
fseed('I12-both-files', 'I12', [('dolfyn/io/base.py', '''        for basefile in [filename.rsplit('.', 1)[0],
                         filename]:
''', '''        for basefile in [filename,
                         filename.rsplit('.', 1)[0]]:
''')], [('i06', 'data', 1)], "json.dump({'site': 'a'}, open(os.path.join(here, 'data.userdata.json'), 'w')); json.dump({'site': 'b'}, open(os.path.join(here, 'data.vec.userdata.json'), 'w'))\nn = [f for f in os.listdir(here) if f.startswith('data.') and not f.endswith('.json')][0]\njson.dump({'site': 'b'}, open(os.path.join(here, n + '.userdata.json'), 'w'))\nshow(n)", 'user data beside the file under both names', 'the other file is used')
