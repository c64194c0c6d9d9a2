"""S03: binned spectra of datasets (calc_psd, calc_csd, calc_coh, ...)."""
import math
from symx.runner import Harness
from checks.common import *
from checks.s01 import oracle
from checks.s02 import cross, mix, A, B, lst, unitc
from checks.s01 import segs, win
from dolfyn.velocity import VelBinner
from dolfyn.adv.turbulence import ADVBinner

T = 2e-4
T0NS = 1500000000 * 10 ** 9


def vda(v):
    n = v.shape[-1]
    if len(v.shape) == 1:
        return xr.DataArray(v.copy(), dims=('time',), coords={'time': times(n)})
    return xr.DataArray(v.copy(), dims=('dir', 'time'), coords={'dir': ['E', 'N', 'U'], 'time': times(n)})


def padded(x, k, nb, pad):
    """bin k with half the padding from either neighbour (zeros at the ends)"""
    N = len(x) // nb * nb
    lo, hi = k * nb - pad // 2, (k + 1) * nb + (pad + 1) // 2
    return [x[i] if 0 <= i < N else 0 for i in range(lo, hi)]


def check_time(cx, da, nb, nbin):
    want = [T0NS + int(1e9 * (k * nb + (nb - 1) / 2)) for k in range(nbin)]
    got = [int(t) for t in np.asarray(da['time'].values).astype('datetime64[ns]').astype('int64')]
    cx.check('one mean time per bin', len(got) == nbin and all(abs(a - b) < 1000 for a, b in zip(got, want)))


def psd3(nb, nfft, units, override, comps=3, own=None):
    """own: (n_bin, n_fft) of the binner when they are overridden per call"""
    def f(cx):
        nbin = 3 if nfft < nb else 2
        n = nb * nbin + 1
        fs = 4.0
        v = cx.reals('v', (comps, n), -3, 3)
        x = v if comps == 3 else v[0]
        if override:
            b = VelBinner(own[0], fs, n_fft=own[1]) if own else VelBinner(2 * nb, fs, n_fft=2 * nb)
            p = b.calc_psd(vda(x), freq_units=units, n_bin=nb, n_fft=nfft)
        else:
            b = VelBinner(nb, fs, n_fft=nfft)
            p = b.calc_psd(vda(x), freq_units=units)
        a = arr(p)
        k = 2 * math.pi if 'rad' in units else 1
        cx.check('shape', tuple(a.shape) == ((3, nbin, nfft // 2) if comps == 3 else (nbin, nfft // 2)))
        cx.close('frequencies', p['freq'].values, [k * fs * i / nfft for i in range(1, nfft // 2 + 1)], 1e-3)
        cx.check('units named', ('rad' in p.attrs['units']) == ('rad' in units) and ('rad' in p['freq'].attrs['units']) == ('rad' in units))
        check_time(cx, p, nb, nbin)
        pad = min(nb - nfft, nfft)
        for c in range(comps):
            for j in range(nbin):
                want = oracle(padded([v[c, i] for i in range(n)], j, nb, pad), nfft, k * fs, 'hann')
                cx.close('spectrum of the bin', a[c, j] if comps == 3 else a[j], want, T)
        cx.close('data untouched', arr(vda(x)), x, 0)
    return Harness('psd_%d_%d_%s%s_%d' % (nb, nfft, units[:2], '_override' * override + '_%d_%d' % own if own else '_override' * override, comps), f,
                   bounds='bins of %d, nfft %d, %d component(s), %s' % (nb, nfft, comps, units))


def noise(cx):
    nb, fs = 4, 2.0
    v = cx.reals('v', (3, nb), -3, 3)
    ns = cx.reals('noise', (3,), 0.05, 0.5)
    b = VelBinner(nb, fs)
    for units, k in (('Hz', 1), ('rad/s', 2 * math.pi)):
        p0 = arr(b.calc_psd(vda(v), freq_units=units))
        p = arr(b.calc_psd(vda(v), freq_units=units, noise=ns))
        for c in range(3):
            for i in range(2):
                d = p0[c, 0, i] - ns[c] * ns[c] / (k * fs / 2)
                cx.check('positive or zero', p[c, 0, i] >= 0)
                cx.check('noise level removed where it is smaller', cx.implies(d >= 0.001, cx.all([p[c, 0, i] - d < 1e-4, d - p[c, 0, i] < 1e-4])))
    # some of the components without noise
    for z in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
        p0 = arr(b.calc_psd(vda(v), freq_units='Hz'))
        p = arr(b.calc_psd(vda(v), freq_units='Hz', noise=cx.array([0.0 if c in z else ns[c] for c in range(3)], 'float64')))
        for c in range(3):
            for i in range(2):
                d = p0[c, 0, i] - (0 if c in z else ns[c] * ns[c] / (fs / 2))
                cx.check('noise of some components only', cx.implies(d >= 0.001, cx.all([p[c, 0, i] - d < 1e-4, d - p[c, 0, i] < 1e-4])))
    one = arr(b.calc_psd(vda(v[1]), freq_units='Hz', noise=ns[1]))
    three = arr(b.calc_psd(vda(v), freq_units='Hz', noise=ns))
    cx.close('one component alone', one[0], three[1, 0], T)


def psd_refuse(cx):
    v = cx.reals('v', (3, 8), -3, 3)
    b = VelBinner(4, 1.0)
    cx.raises('unknown units', Exception, b.calc_psd, vda(v), freq_units='cpd')
    cx.raises('three noise levels for one component', Exception, b.calc_psd, vda(v[0]), noise=[0.1, 0.1, 0.1])
    cx.raises('one noise level for three', Exception, b.calc_psd, vda(v), noise=0.1)
    cx.raises('n_bin beyond the record', Exception, b.calc_psd, vda(v), n_bin=9)
    cx.raises('unknown units', Exception, b.calc_freq, units='cpd')
    two = xr.DataArray(v[:2].copy(), dims=('dir', 'time'), coords={'dir': ['E', 'N'], 'time': times(8)})
    cx.raises('not a velocity vector', Exception, b.calc_psd, two)


def csd3(nb, nfft, units, override):
    def f(cx):
        nbin = 2
        n = nb * nbin
        fs = 4.0
        v = cx.reals('v', (3, n), -3, 3)
        kw = dict(n_bin=nb, n_fft_coh=nfft) if override else {}
        b = ADVBinner(2 * nb if override else nb, fs, n_fft_coh=nfft if not override else None)
        p = b.calc_csd(vda(v), freq_units=units, **kw)
        k = 2 * math.pi if 'rad' in units else 1
        a = arr(p)
        cx.check('shape', tuple(a.shape) == (3, nbin, nfft // 2))
        cx.check('pair names', [list(map(str, q)) if not isinstance(q, str) else q for q in p['C'].values.tolist()] == ["Cxy", "Cxz", "Cyz"])
        cx.close('frequencies', p['coh_freq'].values, [k * fs * i / nfft for i in range(1, nfft // 2 + 1)], 1e-3)
        check_time(cx, p, nb, nbin)
        cx.check('units named', p['coh_freq'].attrs['units'] == ('rad s-1' if 'rad' in units else 'Hz') and
                 p.attrs['units'] == 'm2 s-1 rad-1' if 'rad' in units else p.attrs['units'] == 'm2 s-2 Hz-1')
        for m, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
            for q in range(nbin):
                X = padded([v[i, t] for t in range(n)], q, nb, nfft)
                Y = padded([v[j, t] for t in range(n)], q, nb, nfft)
                S = segs(len(X), nfft)
                for g, (re, im) in zip(lst(a[m, q]), cross(X, Y, nfft, k * fs, 'hann', S, S)):
                    cx.close('cross spectrum: real part', g.real, re, T)
                    cx.close('cross spectrum: imaginary part', g.imag, im, T)
    return Harness('csd_%d_%d_%s%s' % (nb, nfft, units[:2], '_override' if override else ''), f, bounds='2 bins of %d, nfft %d, %s' % (nb, nfft, units))


def coh(nb, nfft, n1, n2, override):
    """coherence of each bin; n1 >= n2 samples over the same time"""
    def f(cx):
        x = cx.array(mix(cx, n1, (A + B) * 2, (B + A) * 2, 's'), 'float64')
        y = np.array(((B + A[::-1]) * 2)[:n2])
        b = VelBinner(2 * nb if override else nb, 1.0, n_fft_coh=None if override else nfft)
        kw = dict(n_bin=nb, n_fft_coh=nfft) if override else {}
        c = b.calc_coh(vda(x), vda(y), debias=False, **kw)
        nb1 = n1 * nb // n2
        nbin = min(n1 // nb1, n2 // nb)
        a = arr(c)
        cx.check('shape', tuple(a.shape) == (nbin, nfft // 2))
        cx.close('frequencies', c['f'].values, [i / nfft for i in range(1, nfft // 2 + 1)], 1e-6)
        check_time(cx, c, nb, nbin)
        cx.check('units of the frequency', c['f'].attrs['units'] == 'Hz')
        for q in range(nbin):
            X = padded(lst(x), q, nb1, nfft)
            Y = padded([float(u) for u in y], q, nb, nfft)
            sx, sy = segs(len(X), nfft), segs(len(Y), nfft)
            if len(X) > len(Y):
                st = int((len(X) - nfft) / (len(sy) - 1))
                sx = [i * st for i in range(len(sy))]
            cxy, cxx = cross(X, Y, nfft, 1.0, 'hann', sx, sy), cross(X, X, nfft, 1.0, 'hann', sx, sx)
            cyy = cross(Y, Y, nfft, 1.0, 'hann', sy, sy)
            for k in range(nfft // 2):
                cx.assume(cxx[k][0] >= 0.01)
                cx.close('|Sab|^2 = C Saa Sbb', a[q, k] * (cxx[k][0] * cyy[k][0]), cxy[k][0] * cxy[k][0] + cxy[k][1] * cxy[k][1], 2e-3)
        if n1 > n2:
            cx.raises('shorter signal first', Exception, b.calc_coh, vda(y), vda(x))
    return Harness('coh_%d_%d_%d_%d%s' % (nb, nfft, n1, n2, '_override' if override else ''), f,
                   bounds='bins of %d, nfft %d, a one-parameter record of %d and a fixed one of %d values' % (nb, nfft, n1, n2))


def base(nb, nfft, n1, n2, fs):
    """calc_csd_base of plain arrays, of the same or of different length"""
    def f(cx):
        x = cx.array(mix(cx, n1, (A + B) * 2, (B + A) * 2, 's'), 'float64')
        y = np.array(((B + A[::-1]) * 2)[:n2])
        b = VelBinner(nb, 1.0, n_fft_coh=nfft)
        b2 = VelBinner(2 * nb, fs)
        nb1 = n1 * nb // n2
        nbin = min(n1 // nb1, n2 // nb)
        for nm, a, k in (('own', b.calc_csd_base(x, y), 1.0), ('override', b2.calc_csd_base(x, y, fs=3 * fs, n_fft=nfft, n_bin=nb), 3 * fs)):
            cx.check(nm + ': shape', tuple(a.shape) == (nbin, nfft // 2))
            for q in range(nbin):
                X = padded(lst(x), q, nb1, nfft)
                Y = padded([float(u) for u in y], q, nb, nfft)
                sx, sy = segs(len(X), nfft), segs(len(Y), nfft)
                if len(X) > len(Y):
                    st = int((len(X) - nfft) / (len(sy) - 1))
                    sx = [i * st for i in range(len(sy))]
                for g, (re, im) in zip(lst(a[q]), cross(X, Y, nfft, k, 'hann', sx, sy)):
                    cx.close(nm + ': cross spectrum: real part', g.real, re, T)
                    cx.close(nm + ': cross spectrum: imaginary part', g.imag, im, T)
    return Harness('base_%d_%d_%d_%d' % (nb, nfft, n1, n2), f,
                   bounds='bins of %d, nfft %d, a one-parameter record of %d and a fixed one of %d values' % (nb, nfft, n1, n2))


def beyond(cx):
    """an FFT longer than the bin is shortened to the bin"""
    nb = 4
    v = cx.reals('v', (3, 2 * nb), -3, 3)
    b, w = VelBinner(nb, 2.0), VelBinner(nb, 2.0, n_fft=9, n_fft_coh=7)
    cx.check('binner: lengths', (w.n_fft, w.n_fft_coh, b.n_fft, b.n_fft_coh) == (nb,) * 4)
    want = b.calc_psd(vda(v), freq_units='Hz')
    for nm, got in (('binner', w.calc_psd(vda(v), freq_units='Hz')), ('call', b.calc_psd(vda(v), freq_units='Hz', n_fft=9))):
        cx.check(nm + ': frequencies', got.dims == want.dims and list(got['freq'].values) == list(want['freq'].values))
        cx.close(nm + ': spectrum', arr(got), arr(want), 1e-6)
    a, a2, a3 = ADVBinner(nb, 2.0), ADVBinner(nb, 2.0, n_fft_coh=7), ADVBinner(nb, 2.0, n_fft=2)
    cx.check('coherence length follows the FFT length', a3.n_fft_coh == 2)
    want = a.calc_csd(vda(v), freq_units='Hz')
    for nm, got in (('csd binner', a2.calc_csd(vda(v), freq_units='Hz')), ('csd call', a.calc_csd(vda(v), freq_units='Hz', n_fft_coh=9)),
                    ('csd call of a binner with short FFTs', a3.calc_csd(vda(v), freq_units='Hz', n_fft_coh=9))):
        cx.check(nm + ': frequencies', got.dims == want.dims and list(got['coh_freq'].values) == list(want['coh_freq'].values))
        cx.close(nm + ': real part', arr(got).real, arr(want).real, 1e-6)
        cx.close(nm + ': imaginary part', arr(got).imag, arr(want).imag, 1e-6)


def psd_base(cx):
    """calc_psd_base of plain arrays: noise, padding and step"""
    nb, fs = 6, 2.0
    x = cx.reals('x', (2 * nb,), -3, 3)
    ns = cx.real('noise', 0.05, 0.5)
    b = VelBinner(nb, fs, n_fft=4)
    p0 = b.calc_psd_base(x.copy())
    for q in range(2):
        want = oracle(padded(lst(x), q, nb, 2), 4, fs, 'hann')
        for k in range(2):
            cx.close('spectrum', p0[q, k], want[k], T)
    p = b.calc_psd_base(x.copy(), noise=ns, fs=3 * fs)
    for q in range(2):
        for k in range(2):
            d = p0[q, k] / 3 - ns * ns / (3 * fs / 2)
            cx.check('noise: positive or zero', p[q, k] >= 0)
            cx.check('noise level removed where it is smaller', cx.implies(d >= 0.001, cx.all([p[q, k] - d < 1e-4, d - p[q, k] < 1e-4])))
    z = b.calc_psd_base(x.copy(), n_pad=0, window=1)
    for q in range(2):
        want = oracle(lst(x)[q * nb:(q + 1) * nb], 4, fs, 1)
        for k in range(2):
            cx.close('no padding, no window', z[q, k], want[k], T)


def self_coh(cx):
    """a component is coherent and in phase with itself in every bin"""
    n = 18
    x = cx.array(mix(cx, n, A + B, B + A, 's'), 'float64')
    g = cx.real('gain', 0.5, 2)
    for nb in (7, 9):
        b = VelBinner(nb, 1.0, n_fft_coh=4)
        c = arr(b.calc_coh(vda(x), vda(x * 1.0)))
        for q in range(n // nb):
            X = padded(lst(x), q, nb, 4)
            S = segs(len(X), 4)
            for k, v in enumerate(cross(X, X, 4, 1.0, 'hann', S, S)):
                cx.assume(v[0] >= 0.01)
                cx.close('coherence one', c[q, k], 1.0, 1e-3)
    y = np.array(A + B)[:n]
    z = VelBinner(9, 1.0, n_fft_coh=4).calc_phase_angle(vda(cx.array([g * float(u) for u in y], 'float64')), vda(y), n_bin=6, n_fft_coh=5)
    cx.check('phase: shape', tuple(z.shape) == (3, 2))
    check_time(cx, z, 6, 3)
    cx.check('phase: units of the frequency', z['f'].attrs['units'] == 'Hz')
    cx.close('phase: frequencies', z['f'].values, [0.2, 0.4], 1e-6)
    for q in range(3):
        for k in range(2):
            cx.close('phase: in phase', arr(z)[q, k].real, 1.0, 1e-4)
            cx.close('phase: in phase', arr(z)[q, k].imag, 0.0, 1e-4)


def rows(cx):
    """several components or depth cells: coherence and phase of each row by itself"""
    nb, nfft = 7, 4
    x = cx.array([mix(cx, 2 * nb, A + B, B + A, 's') if r == 1 else [float(u) for u in (A + B)[3 * r:3 * r + 2 * nb]] for r in range(3)], 'float64')
    y = np.array([(B + A)[2 * r:2 * r + 2 * nb] for r in range(3)])

    def d(a):
        return xr.DataArray(a.copy(), dims=('range', 'time'), coords={'range': [1.0, 2.0, 3.0], 'time': times(2 * nb)})
    b = VelBinner(nb, 1.0, n_fft_coh=nfft)
    c = b.calc_coh(d(x), d(y), debias=False)
    z = b.calc_phase_angle(d(y), d(y[::-1]))
    cx.check('rows: dimensions', c.dims == z.dims == ('range', 'time', 'f') and tuple(c.shape) == tuple(z.shape) == (3, 2, 2) and
             list(c['range'].values) == [1, 2, 3] == list(z['range'].values))
    for r in range(3):
        for q in range(2):
            X, Y = padded(lst(x[r]), q, nb, nfft), padded([float(u) for u in y[r]], q, nb, nfft)
            W = padded([float(u) for u in y[2 - r]], q, nb, nfft)
            S = segs(len(X), nfft)
            cxy, cxx, cyy = (cross(u, v, nfft, 1.0, 'hann', S, S) for u, v in ((X, Y), (X, X), (Y, Y)))
            for k in range(nfft // 2):
                cx.assume(cxx[k][0] >= 0.01)
                cx.close('rows: |Sab|^2 = C Saa Sbb', arr(c)[r, q, k] * (cxx[k][0] * cyy[k][0]), cxy[k][0] * cxy[k][0] + cxy[k][1] * cxy[k][1], 2e-3)
                w = sum(unitc(Y[i:i + nfft], W[i:i + nfft], win('hann', nfft), k + 1) for i in S) / len(S)
                cx.close('rows: phase', arr(z)[r, q, k].real, w.real, 1e-4)
                cx.close('rows: phase', arr(z)[r, q, k].imag, w.imag, 1e-4)


def freqs(cx):
    n, m = pick(cx, 'n_fft', 2, 8), pick(cx, 'n_fft_coh', 2, 8)
    fs = cx.real('fs', 0.1, 10)
    b = VelBinner(8, fs, n_fft=n, n_fft_coh=m)
    for nm, f, k, want in (('Hz', b.calc_freq(units='Hz'), 1, n), ('rad', b.calc_freq(), 2 * math.pi, n),
                           ('coherence', b.calc_freq(units='Hz', coh=True), 1, m), ('override', b.calc_freq(units='Hz', n_fft=6), 1, 6)):
        cx.check(nm + ': half of the frequencies', len(f) == want // 2)
        for i in range(want // 2):
            cx.close(nm + ': multiples of fs / nfft', f[i], (i + 1) * fs * k / want, 1e-4)
    f2 = b.calc_freq(fs=fs * 2, units='Hz')
    for i in range(n // 2):
        cx.close('other sampling rate', f2[i], (i + 1) * 2 * fs / n, 1e-4)


def floor(units):
    def f(cx):
        fs = 8.0
        nf = 10
        k = 2 * math.pi if units == 'rad s-1' else 1
        fr = np.array([k * fs / 2 * (i + 0.5) / nf for i in range(nf)])
        p = cx.reals('psd', (3, 2, nf), 0, 2)
        da = xr.DataArray(p.copy(), dims=('S', 'time', 'freq'), coords={'S': ['Sxx', 'Syy', 'Szz'], 'time': times(2), 'freq': fr})
        da['freq'].attrs['units'] = units
        b = ADVBinner(20, fs)
        for pct, lo in ((0.8, 8), (0.5, 5)):
            d = arr(b.calc_doppler_noise(da, pct_fN=pct))
            cx.check('one level per component and bin', tuple(d.shape) == (3, 2))
            for c in range(3):
                for t in range(2):
                    w = sum(p[c, t, i] * float(fr[i]) for i in range(lo, nf)) / (nf - lo)
                    cx.check('not negative', d[c, t] >= 0)
                    cx.close('variance: mean of psd times frequency above the cut', d[c, t] * d[c, t], w, 1e-3)
    return Harness('floor_%s' % units[:2], f, bounds='3 x 2 spectra of 10 frequencies')


def harnesses(tier):
    q = tier == 'quick'
    hs = [psd3(4, 4, 'Hz', False), psd3(4, 4, 'rad/s', False), psd3(6, 4, 'Hz', False, 1), psd3(4, 4, 'rad/s', True, 1), psd3(5, 3, 'Hz', True, 1),
          psd3(8, 4, 'Hz', True, 3, (4, 4)), psd3(4, 4, 'Hz', True, 3, (8, 4)), psd3(6, 4, 'Hz', True, 1, (4, 2)),
          csd3(4, 4, 'Hz', False), csd3(4, 4, 'rad/s', True), csd3(5, 4, 'Hz', False),
          coh(6, 4, 12, 12, False), coh(7, 4, 9, 9, False), coh(6, 4, 14, 12, False), coh(5, 4, 15, 10, True)]
    hs += [psd3(8, 6, 'Hz', False), psd3(8, 8, 'rad/s', True), csd3(6, 5, 'rad/s', True), csd3(8, 6, 'Hz', False), coh(8, 5, 24, 16, True), coh(8, 6, 20, 16, False)]
    if not q:
        hs += [psd3(12, 8, 'Hz', False), psd3(9, 7, 'rad/s', True), csd3(10, 8, 'rad/s', False), coh(10, 8, 30, 20, True)]
    hs += [base(6, 4, 12, 12, 2.0), base(6, 4, 14, 12, 2.0), base(5, 4, 15, 10, 0.5),
           Harness('beyond', beyond, bounds='2 bins of 4, any velocities'), Harness('psd_base', psd_base, bounds='2 bins of 6, any values, noise 0.05..0.5')]
    return hs + [Harness('noise', noise, bounds='one bin of 4, any noise 0.05..0.5'), Harness('psd_refuse', psd_refuse, bounds='8 samples'),
                 Harness('self_coh', self_coh, bounds='18 values, bins of 7, 9 and 6'), Harness('rows', rows, bounds='3 rows of 2 bins of 7, a one-parameter record in one row'), Harness('freqs', freqs, bounds='n_fft, n_fft_coh 2..8, fs 0.1..10', max_paths=100),
                 floor('Hz'), floor('rad s-1')]
