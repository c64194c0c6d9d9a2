"""B01: cutting a record into bins (reshape, detrend, demean)."""
from symx.runner import Harness
from checks.common import *
from dolfyn.binned import TimeBinner
from dolfyn.velocity import VelBinner
import math


def integer(nmax, lead, override):
    def f(cx):
        nb = pick(cx, 'n_bin', 2, 4)
        N = pick(cx, 'N', 1, nmax)
        pad = pick(cx, 'n_pad', 0, nb)
        v = cx.reals('x', lead + (N,), -10, 10)
        if override:
            b = TimeBinner(5, 1.0)
            kw = dict(n_bin=nb)
        else:
            b = TimeBinner(nb, 1.0)
            kw = {}
        if N < nb:
            cx.raises('record shorter than a bin refused', Exception, b.reshape, v, **kw)
            return
        keep = v.copy()
        out = b.reshape(v, n_pad=pad, **kw)
        M = N // nb
        cx.check('shape', tuple(out.shape) == lead + (M, nb + pad))
        cx.close('input untouched', v, keep, 0)
        p0 = pad // 2
        for ix in np.ndindex(*lead):
            for k in range(M):
                for m in range(nb + pad):
                    j = k * nb + m - p0
                    inside = 0 <= j < M * nb
                    cx.close('bin %s' % ('core' if p0 <= m < p0 + nb else 'padding'), out[ix + (k, m)], v[ix + (j,)] if inside else 0.0, 0)
    return Harness('integer_%s_%s' % ('x'.join(map(str, lead)) or '1d', 'override' if override else 'own'), f,
                   bounds='record length 1..%d, n_bin 2..4, n_pad 0..n_bin, leading shape %s' % (nmax, lead), max_paths=2000)


def fractional(nb):
    def f(cx):
        N = pick(cx, 'N', int(nb) + 1, 9 * int(nb))
        v = cx.reals('x', (N,), -10, 10)
        b = TimeBinner(nb, 1.0)
        out = b.reshape(v)
        ib = int(nb)
        M = out.shape[0]
        cx.check('bin size is the integer part', out.shape[1] == ib)
        cx.check('no bin lost but an incomplete one', M == int(N // nb))
        for k in range(M):
            for m in range(ib):
                j = int(math.floor(round((k * ib + m) * nb / ib, 9)))
                cx.close('order kept, skips as documented', out[k, m], v[j], 0)
    return Harness('fractional_%s' % nb, f, bounds='n_bin=%s, record length up to %d' % (nb, 9 * int(nb)), max_paths=60)


def means(nb):
    def f(cx):
        N = 2 * nb + 1
        v = cx.reals('x', (2, N), -10, 10, nan=False)
        b = VelBinner(nb, 1.0)
        d = b.demean(v)
        t = b.detrend(v)
        cx.check('shapes', tuple(d.shape) == (2, 2, nb) == tuple(t.shape))
        for q in range(2):
            for k in range(2):
                seg = [v[q, k * nb + m] for m in range(nb)]
                mu = sum(seg) / nb
                for m in range(nb):
                    cx.close('demean', d[q, k, m], seg[m] - mu, 1e-5)
                cx.close('detrend: zero mean', sum(t[q, k, m] for m in range(nb)), 0, 1e-5)
                cx.close('detrend: zero slope', sum(m * t[q, k, m] for m in range(nb)), 0, 1e-4)
                for m in range(1, nb - 1):
                    cx.close('detrend: only a line', t[q, k, m + 1] - 2 * t[q, k, m] + t[q, k, m - 1], seg[m + 1] - 2 * seg[m] + seg[m - 1], 1e-5)
    return Harness('means_%d' % nb, f, bounds='2 series of 2 bins of %d values plus a remainder' % nb)


def padded(nb, pad):
    """detrending and demeaning of padded bins, with and without n_bin"""
    def f(cx):
        N = 3 * nb
        v = cx.reals('x', (2, N), -10, 10)
        r = VelBinner(nb, 1.0).reshape(v, n_pad=pad)
        for b, kw in ((VelBinner(nb, 1.0), {}), (VelBinner(nb + 2, 1.0), dict(n_bin=nb))):
            d = b.demean(v, n_pad=pad, **kw)
            t = b.detrend(v, n_pad=pad, **kw)
            cx.check('shapes', tuple(d.shape) == (2, 3, nb + pad) == tuple(t.shape))
            w = nb + pad
            x = [i - (w - 1) / 2 for i in range(w)]
            for q in range(2):
                for k in range(3):
                    seg = [r[q, k, i] for i in range(w)]
                    mu = sum(seg) / w
                    sl = sum(a * c for a, c in zip(x, seg)) / sum(a * a for a in x)
                    for i in range(w):
                        cx.close('demean over the padded bin', d[q, k, i], seg[i] - mu, 1e-5)
                        cx.close('detrend over the padded bin', t[q, k, i], seg[i] - mu - sl * x[i], 1e-5)
    return Harness('padded_%d_%d' % (nb, pad), f, bounds='2 series of 3 bins of %d values, n_pad %d' % (nb, pad))


def settings(cx):
    """n_fft / n_fft_coh never exceed n_bin"""
    nb, nf, nc = pick(cx, 'n_bin', 1, 4), pick(cx, 'n_fft', 0, 5), pick(cx, 'n_fft_coh', 0, 5)
    b = TimeBinner(nb, 2.0, n_fft=nf or None, n_fft_coh=nc or None)
    cx.check('n_bin', b.n_bin == nb)
    cx.check('n_fft', b.n_fft == (min(nf, nb) if nf else nb))
    cx.check('n_fft_coh', b.n_fft_coh == (min(nc, nb) if nc else b.n_fft))
    cx.check('fs', b.fs == 2.0)


def harnesses(tier):
    q = tier == 'quick'
    return ([integer(16 if q else 30, (), False), integer(14 if q else 24, (), True), integer(10 if q else 16, (2,), False)] +
            [fractional(x) for x in ((2.5, 3.25, 2.2, 4.5, 4.75, 5.1) if q else (2.5, 3.25, 2.2, 4.5, 4.75, 5.1, 5.5, 6.2, 7.3))] + [means(3), means(4), padded(3, 2), padded(4, 3)] +
            [Harness('settings', settings, bounds='n_bin 1..4, n_fft and n_fft_coh 1..5 or default')])
