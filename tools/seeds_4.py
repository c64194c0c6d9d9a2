_ns = {'seed': lambda *a, **k: None}
import os as _os
exec(compile(open(_os.path.join('/verif/tools', 'seeds_2.py')).read(), 's2', 'exec'), _ns)
PRE, MOT, FILE = _ns['PRE'], _ns['MOT'], _ns['FILE']
def fseed(id, prop, edits, files, demo, needs, breaks):
    seed(id, prop, edits, FILE + demo + "\njudge()\n", needs, breaks, files=files)

seed('M01-probe-frame', 'M01', [('dolfyn/adv/motion.py', """        if to_earth is None:
            to_earth = self.to_earth
""", """        to_earth = to_earth or self.to_earth
""")], MOT + '''
a, b = moving(40), moving(40)
a['heading'].values[:] = b['heading'].values[:] = 70
for d in (a, b):
    d['orientmat'] = _euler2orient(d['time'], d['heading'].values, d['pitch'].values, d['roll'].values)
v = dolfyn.adv.motion.CalcMotion(a, accel_filtfreq=.1, to_earth=True)
r = v.calc_velrot(np.array([.3, .1, .6]), to_earth=False)
w = dolfyn.adv.motion.CalcMotion(b, accel_filtfreq=.1, to_earth=False).calc_velrot(np.array([.3, .1, .6]))
assert np.allclose(r, w), np.abs(r - w).max()
''', 'motion in the instrument frame asked of a correction that goes to earth', 'the rotation velocity at the separate probes is turned to earth before the beam projection')

seed('S03-coh-clamp', 'S03', [('dolfyn/binned.py', """            n_fft_coh = int(self.n_bin)
            warnings.warn("n_fft_coh must be smaller than or equal to n_bin, "
                          "setting n_fft_coh = n_bin")
        return""", """            n_fft_coh = int(self.n_fft)
            warnings.warn("n_fft_coh must be smaller than or equal to n_bin, "
                          "setting n_fft_coh = n_bin")
        return""")], PRE + '''
from dolfyn.adv.turbulence import ADVBinner
v = xr.DataArray(rng.randn(3, 32), dims=('dir', 'time'), coords={'dir': ['E', 'N', 'U'], 'time': np.datetime64('2020-01-01', 'ns') + np.arange(32) * np.timedelta64(1, 's')})
a = ADVBinner(16, 1.0, n_fft=8).calc_csd(v, n_fft_coh=20)
b = ADVBinner(16, 1.0).calc_csd(v, n_fft_coh=16)
assert a.shape == b.shape and np.allclose(a, b), (a.shape, b.shape)
''', 'a coherence FFT longer than the bin, asked of a binner with short FFTs', 'the cross-spectra have the resolution of the short FFT')

seed('B03-bin-noise', 'B03', [('dolfyn/velocity.py', """                        'Noise should have same or fewer dimensions as velocity')
                out -= noise ** 2
""", """                        'Noise should have same or fewer dimensions as velocity')
                out -= np.mean(noise) ** 2
""")], PRE + '''
from dolfyn.velocity import VelBinner
t = np.datetime64('2020-01-01', 'ns') + np.arange(12) * np.timedelta64(1, 's')
v = xr.DataArray(rng.randn(12), dims=('time',), coords={'time': t})
b = VelBinner(4, 1.0)
n = np.array([.1, .2, .4])
assert np.allclose(b.calc_tke(v, noise=n), b.calc_tke(v) - n ** 2, atol=1e-6)
''', 'a noise level that differs from bin to bin', 'every bin is corrected with the mean noise level')

seed('B03-ti-noise', 'B03', [('dolfyn/velocity.py', """        u_rms = np.sqrt(np.nanmean(up**2, axis=-1) - noise**2)
""", """        u_rms = np.sqrt(np.nanmean(up**2, axis=-1)) - noise
""")], PRE + '''
from dolfyn.velocity import VelBinner
t = np.datetime64('2020-01-01', 'ns') + np.arange(12) * np.timedelta64(1, 's')
u = xr.DataArray(2 + rng.rand(12), dims=('time',), coords={'time': t})
got = VelBinner(4, 1.0).calc_ti(u, noise=.1).values
x = u.values.reshape(3, 4)
assert np.allclose(got, np.sqrt(x.var(1) - .01) / x.mean(1), atol=1e-5)
''', 'a noise level that is not zero', 'noise is subtracted from the standard deviation and not from the variance')

fseed('I05-one-nan', 'I05', [('dolfyn/io/rdi.py', """    if any(np.isnan(dat['coords']['time_gps'])):
        nan = np.isnan(dat['coords']['time_gps'])
        dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
""", """    if any(np.isnan(dat['coords']['time_gps'])):
        nan = np.isnan(dat['coords']['time_gps'])
        dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
        idx = np.sort(idx)
""")], [('i05', 'gps_missing', 1), ('i05', 'gps_missing', 3)], "show([f for f in sorted(os.listdir(here)) if f.startswith('data.')][0])", 'ensembles without a position, and positions out of order', 'positions shift against their times')
fseed('I03-cells-fewer', 'I03', [('dolfyn/io/rdi.py', """            if diff > 0:
                self.flag = diff
""", """            if diff != 0:
                self.flag = max(diff, 0)
""")], [('i03', 'varying', 1)], "show('data.000')", 'a transect whose cell count grows and shrinks again', 'the cell count of the file follows the last ensemble')
fseed('I10-one-counter', 'I10', [('dolfyn/io/nortek2_lib.py', """                if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
""", """                if ens[idk] < last_ens[idk]:
""")], [('i10', 'counter_1_s0', 1)], "show('data.ad2cp')", 'bursts of one ping each, every one counted from 1', 'all pings are taken for one ensemble')
fseed('I11-bt-skip', 'I11', [('dolfyn/io/nortek2.py', """        skips = np.where(data[id]['ver'] != 0)
""", """        skips = np.where(data[id]['ver'] == 3)
""")], [('i11', 'dual_bbabb_bt', 1)], "show('data.ad2cp')", 'a dual-profile file with bottom track records', 'all bottom-track data are dropped as empty records')
