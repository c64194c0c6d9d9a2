_ns = {'seed': lambda *a, **k: None}
import os as _os
exec(compile(open(_os.path.join('/verif/tools', 'seeds_2.py')).read(), 's2', 'exec'), _ns)
PRE = _ns['PRE']

seed('R04-roll-quadrant', 'R04', [('dolfyn/rotate/base.py', """        np.rad2deg(np.arctan2(omat[1, 2], omat[2, 2])),
""", """        np.rad2deg(np.arctan(omat[1, 2] / omat[2, 2])),
""")], PRE + '''
o = dolfyn.euler2orient(np.array([30., 40.]), np.array([5., -3.]), np.array([10., 170.]))
h, p, r = dolfyn.orient2euler(o)
assert np.allclose(h, [30, 40]) and np.allclose(p, [5, -3]) and np.allclose(r, [10, 170]), r
''', 'an instrument rolled by more than 90 degrees', 'the roll of an inverted instrument comes back 180 degrees off')

seed('R04-down-any', 'R04', [('dolfyn/rotate/vector.py', """        rr[orientation_down.astype(bool)] += 180
""", """        rr[:] += 180 * bool(orientation_down.any())
""")], PRE + '''
from dolfyn.rotate.vector import _calc_omat
d = lambda x: xr.DataArray(np.array(x, float), dims=('time',))
t = xr.DataArray(np.arange(3), dims=('time',))
o = _calc_omat(t, d([10, 20, 30]), d([1, 2, 3]), d([4, 5, 6]), np.array([0, 0, 1])).values
w = dolfyn.euler2orient(np.array([10., 20, 30]), np.array([1., 2, 3]), np.array([4., 5, 186]))
w = np.asarray(w)
assert np.allclose(o, w)
''', 'a Vector turned over during the deployment', 'all samples are taken as upside down when one is')

seed('R07-concave', 'R07', [('dolfyn/rotate/rdi.py', """    if convex == 0 or convex == -1:
""", """    if convex is False or convex == -1:
""")], PRE + '''
from dolfyn.rotate.rdi import _calc_beam_orientmat
a, b = _calc_beam_orientmat(20, np.bool_(False)), _calc_beam_orientmat(20, True)
assert np.allclose(a[:2], -b[:2]) and np.allclose(a[2:], b[2:])
assert np.allclose(_calc_beam_orientmat(30, 0)[:2], -_calc_beam_orientmat(30, 1)[:2])
''', 'a concave head whose flag is 0 or a numpy bool', 'concave heads are treated as convex: X and Y reversed')

seed('R08-squared', 'R08', [('dolfyn/rotate/api.py', """        dt *= np.exp(1j * np.angle(dt))
""", """        dt **= 2
""")], PRE + '''
a = np.deg2rad(np.array([40., 70.])); s = np.array([2., 1.])
v = np.array([s * np.cos(a), s * np.sin(a)])
got = dolfyn.calc_principal_heading(v.copy())
w = np.sum(s * np.exp(2j * a))
assert abs(got - (90 - np.rad2deg(np.angle(w)) / 2)) < 1e-3, got
''', 'samples of different speed and direction in tidal mode', 'directions are weighted by speed squared')

seed('R08-zero-flip', 'R08', [('dolfyn/rotate/api.py', """        dt[dt.imag <= 0] *= -1
""", """        dt[dt.imag < 0] = np.conj(dt[dt.imag < 0])
""")], PRE + '''
a = np.deg2rad(np.array([50., 50. + 180, 50., 230.]))
v = np.array([np.cos(a), np.sin(a)])
assert abs(dolfyn.calc_principal_heading(v.copy()) - 40) < 1e-3
''', 'ebb samples off the coordinate axes in tidal mode', 'ebb directions are mirrored instead of reversed')

seed('R09-earth', 'R09', [('dolfyn/rotate/api.py', """    if not csin == 'beam':  # csin not 'beam', then we're in inst
""", """    if csin == 'inst':  # csin not 'beam', then we're in inst
""")], PRE + '''
from dolfyn.rotate.vector import _euler2orient
def d(cs):
    ds = mk('vector', 'inst', rng.randn(3, 4), 4)
    ds = ds.assign_coords(x1=[1, 2, 3], x2=[1, 2, 3])
    ds['beam2inst_orientmat'] = (('x1', 'x2'), np.array([[2.7, -1.4, -1.3], [0, 2.4, -2.4], [.35, .35, .35]]))
    ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
    ds['vel'].values[:] = np.arange(12.).reshape(3, 4)
    if cs != 'inst':
        dolfyn.rotate2(ds, cs)
    return ds
R = np.array([[0., 1, 0], [-1, 0, 0], [0, 0, 1]])
a, b = d('inst'), d('earth')
dolfyn.set_inst2head_rotmat(a, R); dolfyn.set_inst2head_rotmat(b, R)
dolfyn.rotate2(a, 'earth')
assert np.allclose(a['vel'].values, b['vel'].values, atol=1e-6)
''', 'the rotation set while the data are in earth coordinates', 'the head rotation is recorded but not applied')

seed('R05-principal-second', 'R05', [('dolfyn/rotate/api.py', """        ds.attrs['principal_heading'] += angle
""", """        ds.attrs['principal_heading'] += declin
""")], PRE + '''
from dolfyn.rotate.vector import _euler2orient
ds = mk('vector', 'inst', np.ones((3, 4)), 4, principal_heading=50.)
ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
ds.velds.set_declination(10.); ds.velds.set_declination(4.)
assert abs(ds.attrs['principal_heading'] - 54) < 1e-6, ds.attrs['principal_heading']
''', 'a declination set twice with a principal heading present', 'the principal heading accumulates declinations')

seed('T03-single-trend', 'T03', [('dolfyn/tools/misc.py', """    arr -= b * x
""", """    arr -= (b * x).astype('float32')
""")], PRE + '''
from dolfyn.tools.misc import detrend
x = 1e7 * np.arange(1001.) + np.sin(np.arange(1001.))
a = detrend(x)
assert np.abs(detrend(a) - a).max() < 1e-4 and np.abs(a).max() < 2
''', 'a record with a large trend', 'the trend is removed in single precision only')

seed('T02-median-rows', 'T02', [('dolfyn/tools/misc.py', """        kernel = [1, kernel]
""", """        kernel = [kernel, kernel]
""")], PRE + '''
from dolfyn.tools.misc import medfiltnan
a = np.vstack([np.arange(7.), 10 + np.arange(7.), 20 + np.arange(7.)])
b = medfiltnan(a, 3)
w = np.array([medfiltnan(r, 3) for r in a])
assert np.allclose(b, w)
''', 'a two-dimensional array with a scalar kernel', 'neighbouring rows are mixed in')

seed('T04-itke-root', 'T04', [('dolfyn/velocity.py', """        I_tke = np.ma.masked_where(self.U_mag < thresh,
                                   np.sqrt(2 * self.tke) / self.U_mag)
""", """        I_tke = np.ma.masked_where(self.U_mag <= thresh,
                                   np.sqrt(2 * self.tke / self.U_mag))
""")], PRE + '''
ds = mk('vector', 'earth', np.array([[3., 0], [4., 2], [0, 0]]), 2)
ds['tke_vec'] = (('tke', 'time'), np.ones((3, 2)), {'units': 'm2 s-2'}); ds = ds.assign_coords(tke=["upup_", "vpvp_", "wpwp_"])
assert np.allclose(ds.velds.I_tke.values, np.sqrt(3) / np.array([5, 2.]), atol=1e-5)
''', 'speeds other than 1 m/s', 'the intensity is divided by the root of the speed')

seed('B02-var-cancel', 'B02', [('dolfyn/velocity.py', """        for ky in names:
            # set up dimensions and coordinates for dataarray
            dims_list = raw_ds[ky].dims
            if any([ar for ar in dims_list if 'altraw' in ar]):
                continue
            coords_dict = {}
            for nm in dims_list:
                if 'time' in nm:
                    coords_dict[nm] = self.mean(raw_ds[ky][nm].values)
                else:
                    coords_dict[nm] = raw_ds[ky][nm].values

            # create Dataset
            if 'ensemble' not in ky:
                try:  # variables with time coordinate
                    out_ds[ky+suffix] = xr.DataArray(self.var(raw_ds[ky].values),
""", """        for ky in names:
            # set up dimensions and coordinates for dataarray
            dims_list = raw_ds[ky].dims
            if any([ar for ar in dims_list if 'altraw' in ar]):
                continue
            coords_dict = {}
            for nm in dims_list:
                if 'time' in nm:
                    coords_dict[nm] = self.mean(raw_ds[ky][nm].values)
                else:
                    coords_dict[nm] = raw_ds[ky][nm].values

            # create Dataset
            if 'ensemble' not in ky:
                try:  # variables with time coordinate
                    v = raw_ds[ky].astype('float32').values
                    out_ds[ky+suffix] = xr.DataArray(self.mean(v ** 2) - self.mean(v) ** 2,
""")], PRE + '''
from dolfyn.velocity import VelBinner
v = np.zeros((3, 8)) + 0.01 * np.array([0, 1, 0, -1] * 2)
v[2] += 100
ds = mk('vector', 'earth', v, 8)
s = VelBinner(4, 1.).do_var(ds)
assert np.allclose(s['vel_var'].values, 5e-5, rtol=0.05), s['vel_var'].values
''', 'small fluctuations on a large mean', 'variances are differences of large single-precision squares')

seed('A01-shear2-root', 'A01', [('dolfyn/adp/turbulence.py', """        shear2 = self.calc_dudz(vel) ** 2 + self.calc_dvdz(vel) ** 2
""", """        shear2 = abs(self.calc_dudz(vel) + 1j * self.calc_dvdz(vel))
""")], PRE + '''
from dolfyn.adp.turbulence import ADPBinner
v = np.zeros((4, 3, 2)); v[0] = np.array([0, 2., 4.])[:, None]; v[1] = np.array([0, 1., 2.])[:, None]
ds = mk('rdi', 'earth', v, 2)
assert np.allclose(ADPBinner(2, 1.).calc_shear2(ds['vel']).values, 5)
''', 'shear other than 0 or 1', 'the shear is not squared')

seed('N02-data-var-time', 'N02', [('dolfyn/io/api.py', """    for ky in t_data:
        dt = func(dt642date(ds[ky]))
        ds[ky].data = dt

    ds.attrs['time_coords'] = t_coords
""", """    for ky in t_data:
        dt = date2matlab(dt642date(ds[ky]))
        ds[ky].data = dt

    ds.attrs['time_coords'] = t_coords
""")], PRE + '''
import tempfile, os
ds = mk('vector', 'earth', np.ones((3, 4)), 4)
ds.attrs['n_beams'] = 3
ds['t2'] = (('time',), ds['time'].values + np.timedelta64(5, 's'))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.mat')
    dolfyn.save_mat(ds.copy(deep=True), f, datenum=False)
    b = dolfyn.load_mat(f, datenum=False)
dt = (b['t2'].values - ds['t2'].values) / np.timedelta64(1, 's')
assert np.all(np.abs(dt) < 1e-3), dt
''', 'datenum=False and a time that is a data variable', 'times that are not coordinates are written as datenums whatever was asked for')
