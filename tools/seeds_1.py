PRE = '''
import numpy as np, xarray as xr, dolfyn
def mk(kind, coord, vel, n, heading=20., pitch=5., roll=-7., **attrs):
    mod = {'vector': ('Nortek', 'Vector'), 'signature': ('Nortek', 'Signature1000'), 'rdi': ('TRDI', 'Workhorse'), 'awac': ('Nortek', 'AWAC')}[kind]
    nb = vel.shape[0]
    t = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(1, 's')
    names = {3: ['X', 'Y', 'Z'], 4: ['X', 'Y', 'Z1', 'Z2']}[nb]
    ds = xr.Dataset(coords={'time': t, 'dir': names, 'beam': np.arange(1, nb + 1)})
    ds['vel'] = (('dir', 'time'), np.array(vel, float), {'units': 'm s-1'})
    for nm, v in (('heading', heading), ('pitch', pitch), ('roll', roll)):
        ds[nm] = (('time',), np.zeros(n) + v)
    ds.attrs.update(inst_make=mod[0], inst_model=mod[1], coord_sys=coord, fs=1., rotate_vars=['vel'], orientation='up')
    ds.attrs.update(attrs)
    return ds
'''
seed('R05-declin-restored', 'R05', [('dolfyn/rotate/api.py',
"""        angle = declin - ds.attrs.pop('declination')
""", """        angle = declin - ds.attrs['declination']
        if angle < 0:
            angle = declin + 360 - ds.attrs['declination'] % 180
""")], PRE + '''
from dolfyn.rotate.vector import _euler2orient
rng = np.random.RandomState(0)
def run(seq):
    ds = mk('vector', 'earth', rng2.randn(3, 4), 4)
    ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
    ds.attrs['principal_heading'] = 30.
    for d in seq: dolfyn.set_declination(ds, d)
    return ds
for seq in ([10., 4.], [200., -12.], [-5., 190., 185.]):
    rng2 = np.random.RandomState(1); a = run(seq)
    rng2 = np.random.RandomState(1); b = run(seq[-1:])
    assert np.allclose(a.vel.values, b.vel.values, atol=1e-4), seq
''', 'the declination is set a second time to a smaller value, when the first one was 180 degrees or more',
'a replaced declination turns the data by 180 degrees too much')

seed('R05-heading-when-beam', 'R05', [('dolfyn/rotate/api.py',
"""    if 'heading' in ds:
        ds['heading'] += angle
""", """    if 'heading' in ds and not rotate2earth:
        ds['heading'] += angle
""")], PRE + '''
from dolfyn.rotate.vector import _euler2orient
for cs in ('earth', 'inst'):
    ds = mk('vector', cs, np.ones((3, 4)), 4)
    ds['orientmat'] = _euler2orient(ds['time'], ds['heading'].values, ds['pitch'].values, ds['roll'].values)
    dolfyn.set_declination(ds, 15.)
    assert np.allclose(ds.heading, 35.), cs
''', 'declination set while the data are in the earth frame', 'the heading is not corrected for the declination')

seed('R03-omat-tail', 'R03', [('dolfyn/rotate/vector.py',
"""        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
""", """        lastgd = np.nonzero(~np.isnan(rr))[0][-1]
""")], PRE + '''
from dolfyn.rotate.vector import _calc_omat
n = 5
nan = np.nan
ds = mk('vector', 'inst', np.ones((3, n)), n)
ds['roll'].values[:] = [1, 2, 3, 4, nan]
ds['pitch'].values[:] = [1, 2, 3, nan, nan]
ds['heading'].values[:] = [1, 2, 3, nan, nan]
o = _calc_omat(ds['time'], ds['heading'], ds['pitch'], ds['roll'])
assert np.isfinite(o.values).all()
assert np.allclose(o.values[..., 2], o.values[..., 4])
''', 'the attitude sensors stop at different samples at the end of the record', 'the tail of the record has an undefined orientation')

seed('R01-sig-down-reverse', 'R01', [('dolfyn/rotate/signature.py',
"""                    dat = signIMU*np.einsum(sumstr, rmd[3], dat)
""", """                    dat = np.einsum(sumstr, rmd[3], signIMU*dat)
""")], PRE + '''
rng = np.random.RandomState(2)
ds = mk('signature', 'inst', rng.randn(4, 3), 3, orientation='down')
ds = ds.assign_coords(dirIMU=['X', 'Y', 'Z'])
ds['accel'] = (('dirIMU', 'time'), rng.randn(3, 3)); ds.attrs['rotate_vars'] = ['vel', 'accel']
ref = ds.copy(deep=True)
dolfyn.rotate2(ds, 'earth'); dolfyn.rotate2(ds, 'inst')
assert np.allclose(ds.vel, ref.vel, atol=1e-5) and np.allclose(ds.accel, ref.accel, atol=1e-5)
''', 'a downward-looking Signature with IMU vectors rotated back from earth to inst', 'three-component vectors are not restored')

seed('R02-principal-f32-z', 'R02', [('dolfyn/rotate/vector.py',
"""        dat[:2] = np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2])
        advo[nm].values = dat.copy()
""", """        ok = np.isfinite(dat).all(axis=0)
        dat[:2] = np.where(ok, np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2]), np.nan)
        advo[nm].values = dat.copy()
""")], PRE + '''
v = np.ones((3, 3)); v[2, 1] = np.nan
ds = mk('vector', 'earth', v, 3, principal_heading=10.)
dolfyn.rotate2(ds, 'principal')
assert np.isfinite(ds.vel.values[:2]).all(), ds.vel.values
''', 'a sample whose vertical component alone is missing', 'valid horizontal components are lost in the principal rotation')

seed('R06-notinplace-attrs', 'R06', [('dolfyn/rotate/base.py',
"""    if forced:
        ref_frame += '-forced'
""", """    if forced or ref_frame == ds.attrs.get('declination_frame', None):
        ref_frame += '-forced'
"""), ('dolfyn/rotate/base.py', """            ds.attrs.pop('coord_sys_axes'+tg)
""", """            del ds.attrs['coord_sys_axes'+tg]
            break
""")], PRE + '''
ds = mk('vector', 'earth', np.ones((3, 3)), 3, principal_heading=10.)
ds.attrs.update(coord_sys_axes='ENU', coord_sys_axes_echo='ENU', coord_sys_axes_bt='ENU')
dolfyn.rotate2(ds, 'principal')
assert not [k for k in ds.attrs if k.startswith('coord_sys_axes')], ds.attrs
''', 'a dataset that has more than one coord_sys_axes attribute', 'stale axis labels of the previous frame survive a rotation')

seed('R10-quat-norm', 'R10', [('dolfyn/rotate/base.py',
"""                         quaternions.isel(q=2, time=i),
                         quaternions.isel(q=3, time=i),
                         quaternions.isel(q=0, time=i)])
""", """                         quaternions.isel(q=2, time=i),
                         quaternions.isel(q=3, time=i),
                         abs(quaternions.isel(q=0, time=i))])
""")], '''
import numpy as np, xarray as xr
from dolfyn.rotate.base import quaternion2orient
t = np.datetime64('2020-01-01', 'ns') + np.arange(2) * np.timedelta64(1, 's')
q = np.array([[-.5, .5], [.5, -.5], [.1, -.1], [.7, -.7]])
o = quaternion2orient(xr.DataArray(q, dims=('q', 'time'), coords={'time': t}))
assert np.allclose(o.values[..., 0], o.values[..., 1])
''', 'a quaternion whose scalar part is negative', 'the rotation is inverted for the other sign of the quaternion')

seed('T01-gap-limit', 'T01', [('dolfyn/tools/misc.py',
"""                     (np.diff(gd) <= maxgap + 1))
""", """                     (np.diff(t[gd]) / np.median(np.diff(t)) <= maxgap + 1))
""")], '''
import numpy as np
from dolfyn.tools.misc import interpgaps
nan = np.nan
a = np.array([0., nan, nan, 3., 4., 5., 6., 7.]); t = np.array([0., 5., 10., 15., 16., 17., 18., 19.])
interpgaps(a, t, maxgap=2)
assert np.allclose(a, [0, 1, 2, 3, 4, 5, 6, 7]), a
''', 'unevenly spaced times with a gap of exactly the permitted number of points', 'gaps are selected by time, not by the number of points')

seed('T01-extrap-2d', 'T01', [('dolfyn/tools/misc.py',
"""            fillgaps(a[inds], maxgap, 0, extrapFlg)
""", """            fillgaps(a[inds], maxgap, 0, extrapFlg and a.ndim < 3)
""")], '''
import numpy as np
from dolfyn.tools.misc import fillgaps
nan = np.nan
a = np.ones((2, 2, 3)); a[0, 1, 0] = nan
fillgaps(a, dim=-1, extrapFlg=True)
assert np.isfinite(a).all()
''', 'a 3-D array with a missing edge and extrapolation asked for', 'edges of 3-D arrays are never extrapolated')

seed('T02-group-merge', 'T02', [('dolfyn/tools/misc.py',
"""        if d - u < min_length:
""", """        if d - u < min_length and d < len(bl):
""")], '''
import numpy as np
from dolfyn.tools.misc import group
g = group(np.array([True, True, False, True]), min_length=2)
assert [(s.start, s.stop) for s in g] == [(0, 2)], g
''', 'a run shorter than min_length that touches the end of the record', 'a too-short final run is returned')

seed('B01-pad-odd', 'B01', [('dolfyn/binned.py',
"""        npd1 = int((n_pad + 1) // 2)
""", """        npd1 = max(int(n_pad // 2), 1)
""")], '''
import numpy as np
from dolfyn.binned import TimeBinner
b = TimeBinner(n_bin=4, fs=1)
o = b.reshape(np.arange(1., 13.), n_pad=3)
assert np.allclose(o[0, 5:], [5, 6]) and np.allclose(o[1, 5:], [9, 10]), o
''', 'an odd padding larger than one', 'the padding after each bin is short by one sample')

seed('B01-demean-axis', 'B01', [('dolfyn/binned.py',
"""        return dt - np.nanmean(dt, axis)[..., None]
""", """        ref = dt[..., n_pad // 2:dt.shape[-1] - n_pad // 2] if n_pad > 1 else dt
        return dt - np.nanmean(ref, axis)[..., None]
""")], '''
import numpy as np
from dolfyn.binned import TimeBinner
b = TimeBinner(n_bin=4, fs=1)
x = np.arange(12.) ** 2
o = b.demean(x, n_pad=2)
assert np.allclose(o.mean(-1), 0), o
''', 'demeaning with padding', 'the demeaned bins do not have zero mean')

seed('B02-coords-2d', 'B02', [('dolfyn/binned.py',
"""        if axis != -1:
            arr = np.swapaxes(arr, axis, -1)
""", """        if axis != -1:
            arr = np.rollaxis(arr, axis, arr.ndim)
""")], '''
import numpy as np
from dolfyn.binned import TimeBinner
b = TimeBinner(n_bin=2, fs=1)
x = np.arange(24.).reshape(4, 2, 3)
m = b.mean(x, axis=0)
assert m.shape == (3, 2, 2) and np.allclose(m[2, 1], [(x[0, 1, 2] + x[1, 1, 2]) / 2, (x[2, 1, 2] + x[3, 1, 2]) / 2])
''', 'averaging a 3-D array along its first axis', 'the other two axes come back in another order')

seed('B03-stress-pair', 'B03', [('dolfyn/adv/turbulence.py',
"""            out[idx] = np.nanmean(vel[p[0]] * vel[p[1]],
""", """            out[idx] = np.nanmean((vel * np.isfinite(vel).all(axis=0))[p[0]] * vel[p[1]],
""")], '''
import numpy as np, xarray as xr
from dolfyn.adv.turbulence import ADVBinner
rng = np.random.RandomState(0)
v = rng.randn(3, 8); v[2, 3] = np.nan
t = np.datetime64('2020-01-01', 'ns') + np.arange(8) * np.timedelta64(1, 's')
da = xr.DataArray(v, dims=('dir', 'time'), coords={'dir': ['E', 'N', 'U'], 'time': t})
s = ADVBinner(4, 1.).calc_stress(da, detrend=False)
u = v[:2].reshape(2, 2, 4); u = u - u.mean(-1, keepdims=True)
assert np.allclose(s.sel(tau='upvp_'), (u[0] * u[1]).mean(-1), atol=1e-5), s
''', 'a sample whose third component alone is missing', 'the horizontal stress counts that sample as zero')

seed('B03-tke-noise', 'B03', [('dolfyn/velocity.py',
"""                out[1] -= noise[1] ** 2
                out[2] -= noise[2] ** 2
""", """                out[1] -= noise[1] ** 2
                out[2] -= noise[-1] * noise[0] if noise[2] > noise[0] + noise[1] else noise[2] ** 2
""")], '''
import numpy as np, xarray as xr
from dolfyn.adv.turbulence import ADVBinner
rng = np.random.RandomState(0)
v = rng.randn(3, 8)
t = np.datetime64('2020-01-01', 'ns') + np.arange(8) * np.timedelta64(1, 's')
da = xr.DataArray(v, dims=('dir', 'time'), coords={'dir': ['E', 'N', 'U'], 'time': t})
b = ADVBinner(4, 1.)
a = b.calc_tke(da).values - b.calc_tke(da, noise=np.array([.1, .1, .5])).values
assert np.allclose(a, np.array([.01, .01, .25])[:, None], atol=1e-5), a
''', 'a vertical noise level larger than the sum of the horizontal ones', 'the wrong noise variance is subtracted from w')

seed('B04-lint-last', 'B04', [('dolfyn/adv/turbulence.py',
"""        scale = np.argmin((acov/acov[..., :1]) > (1/np.e), axis=-1)
""", """        scale = np.sum((acov/acov[..., :1]) > (1/np.e), axis=-1)
        scale = np.where(scale == acov.shape[-1], 0, scale)
""")], '''
import numpy as np, xarray as xr
from dolfyn.adv.turbulence import ADVBinner
t = np.datetime64('2020-01-01', 'ns') + np.arange(1) * np.timedelta64(1, 's')
a = xr.DataArray(np.array([[[1., .8, .2, .5, .1]]]), dims=('dir', 'time', 'lag'), coords={'dir': ['E'], 'time': t})
U = xr.DataArray([2.], dims='time', coords={'time': t})
L = ADVBinner(4, 1.).calc_L_int(a, U)
assert np.allclose(L, 4.), L
''', 'an autocorrelation that rises above 1/e again after falling below it', 'the integral scale counts later lags')

seed('B04-acov-last-bin', 'B04', [('dolfyn/velocity.py',
"""            elif slc[-2] == dt2.shape[-2] - 1:
                out[slc] = tmp[sb]
""", """            elif slc[-2] == dt2.shape[-1] - 1:
                out[slc] = tmp[sb]
""")], '''
import numpy as np, xarray as xr
from dolfyn.velocity import VelBinner
rng = np.random.RandomState(0)
x = rng.randn(48)
t = np.datetime64('2020-01-01', 'ns') + np.arange(48) * np.timedelta64(1, 's')
da = xr.DataArray(x, dims=('time',), coords={'time': t})
b = VelBinner(16, 1.)
a = b.calc_acov(da).values
y = b.calc_acov(xr.DataArray(x[::-1].copy(), dims=('time',), coords={'time': t})).values
assert np.allclose(a[-1], y[0], atol=1e-4) and np.allclose(a[0], y[-1], atol=1e-4), (a[-1], y[0])
''', 'the last bin of a record (time reversal must swap the first and last bins)', 'the last bin averages in zero padding')

seed('S01-step-float', 'S01', [('dolfyn/tools/psd.py',
"""        return int((l - nfft) / (nens - 1)), nens, int(nfft)
    elif nens is None:
""", """        return int(round((l - nfft) / (nens - 1))), nens, int(nfft)
    elif nens is None:
""")], '''
import numpy as np
from dolfyn.tools import psd as P
for l in range(8, 60):
    for nfft in range(4, l + 1):
        step, nens, nf = P.stepsize(l, nfft)
        assert step * (nens - 1) + nf <= l, (l, nfft, step, nens)
''', 'a record length for which the exact spacing of segments has a fractional part above one half', 'the last segment runs past the end of the record')

seed('S01-odd-nfft', 'S01', [('dolfyn/tools/psd.py',
"""        return np.abs(f[1:int(nfft / 2. + 1)])
""", """        return np.abs(f[1:int(nfft / 2. + 1)]) if nfft % 2 == 0 else f[1:int(nfft / 2. + 1)] * (nfft - 1) / nfft
""")], '''
import numpy as np
from dolfyn.tools.psd import psd_freq
for n in (4, 5, 6, 7, 9): assert np.allclose(psd_freq(n, 3.), 3. * np.arange(1, n // 2 + 1) / n), n
''', 'an odd FFT length', 'frequencies of odd-length spectra are scaled')

seed('S02-coh-swap', 'S02', [('dolfyn/tools/psd.py',
"""        step = [0, 0]
""".replace('        ', '    ', 1), """    step = [0, 0]
    b = b - b.mean() * (l[0] % 2)
"""), ('dolfyn/tools/psd.py', """        for i1, i2 in zip(range(step[0], step[0] * nens, step[0]),
                          range(step[1], step[1] * nens, step[1])):
            pwr +=""", """        for i1, i2 in zip(range(step[0], step[0] * nens, step[0]),
                          range(step[1], step[1] * nens - step[0] % 2, step[1])):
            pwr +=""")], '''
import numpy as np
from dolfyn.tools.psd import cpsd_quasisync, detrend
rng = np.random.RandomState(0)
from dolfyn.tools.psd import stepsize
for la, lb, nfft in ((10, 14, 4), (12, 17, 4), (9, 12, 3)):
    a = rng.randn(la); b = rng.randn(lb)
    s1, nens, _ = stepsize(la, nfft); s2, nens, _ = stepsize(lb, nfft, nens=nens)
    w = np.hanning(nfft)
    ref = sum(np.fft.fft(detrend(a[i * s1:i * s1 + nfft]) * w) * np.conj(np.fft.fft(detrend(b[i * s2:i * s2 + nfft]) * w)) for i in range(nens))
    ref = ref[1:nfft // 2 + 1] * 2 / (w ** 2).sum() / nens
    assert np.allclose(cpsd_quasisync(a, b, nfft, 1.), ref), (la, lb)
''', 'records of different length with an odd step and a unit step of the second record', 'the last pair of segments is dropped')

seed('S03-noise-rad', 'S03', [('dolfyn/velocity.py',
"""                                              noise=noise[idx],
""", """                                              noise=noise[idx] if noise[0] else 0,
""")], '''
import numpy as np, xarray as xr
from dolfyn.adv.turbulence import ADVBinner
rng = np.random.RandomState(0)
v = rng.randn(3, 16)
t = np.datetime64('2020-01-01', 'ns') + np.arange(16) * np.timedelta64(1, 's')
da = xr.DataArray(v, dims=('dir', 'time'), coords={'dir': ['E', 'N', 'U'], 'time': t}, attrs={'units': 'm s-1'})
b = ADVBinner(16, 1., n_fft=4)
d = b.calc_psd(da, freq_units='Hz').values - b.calc_psd(da, freq_units='Hz', noise=np.array([0, .01, .02])).values
assert np.allclose(d[1], .01 ** 2 / .5, atol=1e-6) and np.allclose(d[2], .02 ** 2 / .5, atol=1e-6), d
''', 'a zero noise level for the first component and non-zero levels for the others', 'noise is not removed from v and w')

seed('S04-sf-range', 'S04', [('dolfyn/adv/turbulence.py',
"""            cv2m = np.median(cv2[np.logical_not(np.isnan(cv2))])
""", """            cv2m = np.median(cv2[np.isfinite(cv2) & (DAA > np.nanmin(DAA))]) if np.sum(np.isfinite(cv2)) > 2 else np.median(cv2[np.isfinite(cv2)])
""")], '''
import numpy as np, xarray as xr
from dolfyn.adv.turbulence import ADVBinner
rng = np.random.RandomState(0)
x = rng.randn(16)
t = np.datetime64('2020-01-01', 'ns') + np.arange(16) * np.timedelta64(1, 's')
da = xr.DataArray(x, dims=('time',), coords={'time': t})
U = xr.DataArray([2.], dims='time', coords={'time': t[:1]})
b = ADVBinner(16, 8.)
e = b.calc_epsilon_SF(da, U, freq_range=[1., 4.])
c = [np.mean((x[L:] - x[:-L]) ** 2) / (2. * L / 8) ** (2 / 3) for L in range(2, 8)]
assert np.allclose(e, (np.median(c) / 2.1) ** 1.5, rtol=1e-4), e
''', 'more than two lags in the band', 'the smallest structure function is left out of the median')

seed('T04-udir-neg', 'T04', [('dolfyn/velocity.py',
"""                angle[angle < 0] += 360
""", """                angle[angle < -1] += 360
                angle = np.abs(angle)
""")], PRE + '''
ds = mk('vector', 'inst', np.array([[1.], [.01], [0.]]), 1)
d = float(ds.velds.U_dir)
assert abs(d - 360 + .573) < 1e-2, d
''', 'a direction less than a degree to the left of the instrument axis', 'the direction is mirrored')
