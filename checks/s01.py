"""S01: power spectra of one record (tools.psd)."""
from symx.runner import Harness
from checks.common import *
from dolfyn.tools import psd as P

T = 1e-4
QUICK = [True]


def ssum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def dft(x, w, k):
    """one DFT coefficient of the line-detrended, windowed values"""
    n = len(x)
    m = ssum(x) / n
    t = [i - (n - 1) / 2 for i in range(n)]
    b = ssum([i * a for i, a in zip(t, x)]) / sum(i * i for i in t)
    y = [(a - m - b * i) * q for a, i, q in zip(x, t, w)]
    c = ssum([y[i] * math.cos(2 * math.pi * k * i / n) for i in range(n)])
    s = ssum([y[i] * -math.sin(2 * math.pi * k * i / n) for i in range(n)])
    return c, s


import math


def win(name, n):
    if name is None or name == 1:
        return [1.0] * n
    a = 0.5 if 'hann' in name else 0.54
    return [a - (1 - a) * math.cos(2 * math.pi * i / (n - 1)) for i in range(n)]


def segs(l, nfft, step=None):
    """documented segmentation: at least half overlap, all inside the record"""
    if l == nfft:
        return [0]
    if step is None:
        nens = int(2 * l / nfft)
        step = int((l - nfft) / (nens - 1))
        return [i * step for i in range(nens)]
    return list(range(0, l - nfft + 1, step))


def oracle(x, nfft, fs, name, step=None):
    w = win(name, nfft) if not isinstance(name, np.ndarray) else [float(q) for q in name]
    wt = 2.0 / sum(q * q for q in w) / fs
    S = segs(len(x), nfft, step)
    out = []
    for k in range(1, nfft // 2 + 1):
        p = 0
        for i in S:
            c, s = dft(x[i:i + nfft], w, k)
            p = p + c * c + s * s
        out.append(p * wt / len(S))
    return out


def spectrum(l, nfft, wname, step=None, fs=2.0):
    def f(cx):
        x = cx.reals('x', (l,), -5, 5)
        keep = x.copy()
        kw = {} if wname == 'default' else dict(window=np.array([1.0, 2.0, 0.5, 1.5, 1.0, 0.25, 2, 1])[:nfft] if wname == 'custom' else wname)
        if step:
            kw['step'] = step
        p = P.psd(x, nfft, fs, **kw)
        nm = 'hann' if wname == 'default' else kw.get('window')
        want = oracle([x[i] for i in range(l)], nfft, fs, nm, step)
        cx.check('one value per positive frequency', len(p) == nfft // 2)
        cx.close('average periodogram', p, want, T)
        cx.close('input untouched', x, keep, 0)
        for v in p:
            cx.check('non-negative', v >= 0)
    return Harness('psd_l%d_n%d_%s%s' % (l, nfft, wname, '_step%d' % step if step else ''), f,
                   bounds='record of %d values, nfft %d, window %s%s' % (l, nfft, wname, ', step %d' % step if step else ''))


def parseval(n):
    def f(cx):
        x = cx.reals('x', (n,), -5, 5)
        fs = 4.0
        p = P.psd(x, n, fs, window=None)
        df = fs / n
        tot = ssum([v * df for v in p])
        if n % 2 == 0:
            tot = tot - p[n // 2 - 1] * df / 2      # Nyquist is its own mirror image
        xs = [x[i] for i in range(n)]
        m = ssum(xs) / n
        t = [i - (n - 1) / 2 for i in range(n)]
        b = ssum([i * a for i, a in zip(t, xs)]) / sum(i * i for i in t)
        var = ssum([(a - m - b * i) * (a - m - b * i) for a, i in zip(xs, t)]) / n
        cx.close('the spectrum integrates to the variance', tot, var, T)
    return Harness('parseval_%d' % n, f, bounds='%d values, boxcar window' % n)


def invariances(l, nfft):
    def f(cx):
        x = cx.reals('x', (l,), -5, 5)
        p = P.psd(x, nfft, 1.0)
        a, b, k = cx.real('offset', -5, 5), cx.real('slope', -2, 2), cx.real('gain', -3, 3)
        y = cx.array([x[i] + a + b * i for i in range(l)], 'float64')
        cx.close('a line in the data does not matter', P.psd(y, nfft, 1.0), p, T)
        q = P.psd(x * k, nfft, 1.0)
        cx.close('quadratic in the signal', q, [v * k * k for v in p], 1e-3)
        r = P.psd(x, nfft, 4.0)
        cx.close('density per unit frequency', [v * 4 for v in r], p, T)
        cx.close('cpsd of a signal with itself', P.cpsd(x, x.copy(), nfft, 1.0), [v + 0j for v in p], T)
    return Harness('invariances_l%d_n%d' % (l, nfft), f, bounds='record of %d values, nfft %d' % (l, nfft))


def periodic(cx):
    """a record made of identical segments has the spectrum of one of them"""
    s = cx.reals('x', (2,), -5, 5)
    for l in (10, 14, 16):
        x = cx.array([s[i % 2] for i in range(l)], 'float64')
        p = P.psd(x, 4, 1.0, window=None)
        one = P.psd(x[:4], 4, 1.0, window=None)
        cx.close('same as one segment (%d samples)' % l, p, one, 1e-3)


def steps(cx):
    """segmentation covers the record, with at least half overlap"""
    l, n = pick(cx, 'l', 3, 16 if QUICK[0] else 40), pick(cx, 'nfft', 3, 6 if QUICK[0] else 12)
    step, nens, nfft = P.stepsize(l, n)
    cx.check('nfft never exceeds the record', nfft == min(l, n))
    cx.check('segments lie inside the record', (nens - 1) * step + nfft <= l)
    if l > n:
        cx.check('at least half overlap', nens >= 2 and 0 < step and step <= (n + 1) // 2 + (1 if l < 2 * n else 0) if l >= 1.5 * n else step >= 1)
        cx.check('uses the data', l - ((nens - 1) * step + nfft) < nens)
    s = pick(cx, 'step', 1, 6)
    st, ne, nf = P.stepsize(l, n, step=s)
    cx.check('explicit step kept', st == s and (ne - 1) * s + nf <= l and ne * s + nf > l)
    e = pick(cx, 'nens', 1, 4)
    st, ne, nf = P.stepsize(l, n, nens=e)
    cx.check('explicit number kept', ne == e and (ne - 1) * st + nf <= l)


def freq(cx):
    n = pick(cx, 'nfft', 2, 12)
    fs = cx.real('fs', 0.1, 10)
    f = P.psd_freq(n, fs)
    cx.check('length', len(f) == n // 2)
    for k in range(n // 2):
        cx.close('k fs / nfft', f[k], (k + 1) * fs / n, 1e-6)


def windows(cx):
    for n in (4, 5):
        x = cx.reals('x%d' % n, (n,), -5, 5)
        cx.close('window 1 is no window', P.psd(x, n, 1.0, window=1), P.psd(x, n, 1.0, window=None), 1e-6)
        for bad in ('boxer', np.ones(n + 1), {}):
            cx.raises('bad window refused', ValueError, P.psd, x, n, 1.0, window=bad)
    z = np.array([1j, 2, 3, 4])
    cx.raises('complex data refused', Exception, P.psd, z, 4, 1.0)


def harnesses(tier):
    q = tier == 'quick'
    QUICK[0] = q
    hs = [spectrum(4, 4, 'default'), spectrum(5, 5, 'hamm'), spectrum(6, 4, 'default'), spectrum(8, 4, 'hann'), spectrum(10, 4, None),
          spectrum(9, 5, 'hamm'), spectrum(8, 4, 'custom', 4), spectrum(9, 4, 'hann', 2), spectrum(11, 4, None)]
    if not q:
        hs += [spectrum(12, 8, 'hann'), spectrum(16, 8, 'hamm'), spectrum(20, 5, None), spectrum(16, 6, 'custom', 5)]
    hs += [parseval(n) for n in ((3, 4, 5, 6) if q else (3, 4, 5, 6, 7, 8, 9))]
    hs += [invariances(4, 4), invariances(8, 4), invariances(7, 5)]
    return hs + [Harness('periodic', periodic, bounds='alternating record of 10, 14 and 16 samples, nfft 4'),
                 Harness('steps', steps, bounds='record 3..%d, nfft 3..%d, step 1..6, nens 1..4' % ((16, 6) if q else (40, 12)), max_paths=12000, budget=300, validate=2),
                 Harness('freq', freq, bounds='nfft 2..12, fs 0.1..10'), Harness('windows', windows, bounds='nfft 4, 5')]
