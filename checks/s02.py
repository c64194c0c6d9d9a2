"""S02: cross spectra, coherence and phase of two records (tools.psd)."""
import math
from symx.runner import Harness
from checks.common import *
from checks.s01 import dft, win, segs, ssum
from dolfyn.tools import psd as P

T = 1e-4
# fixed records with energy at every frequency
A = [1.0, -2.0, 0.5, 3.0, -1.5, 2.5, 0.25, -3.0, 1.75, 0.5, -1.0, 2.0, -0.75, 1.25, 2.25, -2.5]
B = [0.5, 1.0, -2.5, 0.75, 2.0, -1.0, 3.0, 0.5, -0.25, -2.0, 1.5, 1.0, -3.0, 0.25, -1.75, 2.0]


def cross(x, y, nfft, fs, name, sx, sy):
    """average of fft(x) conj(fft(y)) over paired segments"""
    w = win(name, nfft)
    wt = 2.0 / sum(q * q for q in w) / fs
    out = []
    for k in range(1, nfft // 2 + 1):
        re = im = 0
        for i, j in zip(sx, sy):
            c, s = dft(x[i:i + nfft], w, k)
            d, t = dft(y[j:j + nfft], w, k)
            re = re + c * d + s * t
            im = im + s * d - c * t
        out.append((re * (wt / len(sx)), im * (wt / len(sx))))
    return out


def lst(x):
    return [x[i] for i in range(len(x))]


def cclose(cx, label, got, want, tol=T):
    cx.check(label + ': length', len(got) == len(want))
    for g, (re, im) in zip(lst(got), want):
        cx.close(label + ': real part', g.real, re, tol)
        cx.close(label + ': imaginary part', g.imag, im, tol)


def csd(l, nfft, wname):
    def f(cx):
        x = cx.reals('x', (l,), -3, 3)
        y = cx.reals('y', (l,), -3, 3)
        kx, ky = x.copy(), y.copy()
        p = P.cpsd(x, y, nfft, 2.0, window=wname)
        S = segs(l, nfft)
        cclose(cx, 'fft(a) conj(fft(b))', p, cross(lst(x), lst(y), nfft, 2.0, wname, S, S))
        q = P.cpsd(y, x, nfft, 2.0, window=wname)
        cclose(cx, 'swapping the signals conjugates', q, [(v.real, -v.imag) for v in lst(p)])
        cclose(cx, 'equal lengths: same as quasi-synchronous', P.cpsd_quasisync(x, y, nfft, 2.0, window=wname), [(v.real, v.imag) for v in lst(p)])
        cx.close('input untouched', x, kx, 0)
        cx.close('input untouched', y, ky, 0)
    return Harness('cpsd_l%d_n%d_%s' % (l, nfft, wname), f, bounds='two records of %d values, nfft %d, window %s' % (l, nfft, wname))


def quasi(la, lb, nfft, wname='hann'):
    def f(cx):
        x = cx.reals('x', (la,), -3, 3)
        y = cx.reals('y', (lb,), -3, 3)
        sh, lo = min(la, lb), max(la, lb)
        S = segs(sh, nfft)
        n = len(S)
        st = int((lo - nfft) / (n - 1)) if n > 1 else 0
        L = [i * st for i in range(n)]
        sx, sy = (S, L) if la <= lb else (L, S)
        p = P.cpsd_quasisync(x, y, nfft, 2.0, window=wname)
        cclose(cx, 'fft(a) conj(fft(b))', p, cross(lst(x), lst(y), nfft, 2.0, wname, sx, sy))
        q = P.cpsd_quasisync(y, x, nfft, 2.0, window=wname)
        cclose(cx, 'swapping the signals conjugates', q, [(v.real, -v.imag) for v in lst(p)])
    return Harness('quasi_%d_%d_n%d' % (la, lb, nfft), f, bounds='records of %d and %d values, nfft %d' % (la, lb, nfft))


def mix(cx, n, base, other, name, free=True):
    """a record with one free shape parameter"""
    s = cx.real(name, -2, 2) if free else 0.25
    return [base[i] + s * other[i] for i in range(n)]


def coher(la, lb, nfft, debias, free):
    def f(cx):
        x = cx.array(mix(cx, la, A, B, 's', free == 'a'), 'float64')
        y = cx.array(mix(cx, lb, B, A[::-1], 't', free == 'b'), 'float64')
        sh, lo = min(la, lb), max(la, lb)
        S = segs(sh, nfft)
        n = len(S)
        st = int((lo - nfft) / (n - 1))
        L = [i * st for i in range(n)]
        sx, sy = (S, L) if la <= lb else (L, S)
        X, Y = lst(x), lst(y)
        cxy = cross(X, Y, nfft, 1.0, 'hann', sx, sy)
        cxx = cross(X, X, nfft, 1.0, 'hann', sx, sx)
        cyy = cross(Y, Y, nfft, 1.0, 'hann', sy, sy)
        c = P.coherence(x, y, nfft, debias=debias)
        for k in range(nfft // 2):
            raw = (c[k] + 1.0 / n) / (1 + 1.0 / n) if debias else c[k]
            den = cxx[k][0] * cyy[k][0]
            cx.assume(cxx[k][0] >= 0.01)
            cx.assume(cyy[k][0] >= 0.01)
            cx.close('|Sab|^2 = C Saa Sbb', raw * den, cxy[k][0] * cxy[k][0] + cxy[k][1] * cxy[k][1], 1e-3)
        if la == lb:
            d = P.coherence(y, x, nfft, debias=debias)
            for k in range(nfft // 2):
                cx.close('symmetric', d[k], c[k], 1e-3)
    return Harness('coherence_%d_%d_n%d%s_%s' % (la, lb, nfft, '' if debias else '_raw', free), f,
                   bounds='a one-parameter family and a fixed record of %d and %d values, nfft %d' % (la, lb, nfft))


def same(cx):
    """a signal is fully coherent with any multiple of itself"""
    l = 12
    X = mix(cx, l, A, B, 's')
    g, o = cx.real('gain', 0.5, 3), cx.real('offset', -3, 3)
    if cx.bool('negative'):
        g = -g
    x, y = cx.array(X, 'float64'), cx.array([v * g + o for v in X], 'float64')
    S = segs(l, 4)
    p = cross(X, X, 4, 1.0, 'hann', S, S)
    for v in p:
        cx.assume(v[0] >= 0.01)
    for db in (True, False):
        c = P.coherence(x, y, 4, debias=db)
        for k in range(2):
            cx.close('coherence one', c[k], 1.0, 1e-3)


def noise(cx):
    """known noise variance is removed from both auto spectra"""
    l = 12
    na, nb = cx.real('na', 0, 0.3), cx.real('nb', 0, 0.3)
    x, y = np.array(A[:l]), np.array(B[:l])
    S = segs(l, 4)
    p = [float(v[0]) for v in cross(A[:l], A[:l], 4, 1.0, 'hann', S, S)]
    q = [float(v[0]) for v in cross(B[:l], B[:l], 4, 1.0, 'hann', S, S)]
    r = cross(A[:l], B[:l], 4, 1.0, 'hann', S, S)
    c = P.coherence(x, y, 4, debias=False, noise=(na, nb))
    one = P.coherence(x, y, 4, debias=False, noise=[na])
    eq = P.coherence(x, y, 4, debias=False, noise=(na, na))
    num = P.coherence(x, y, 4, debias=False, noise=na)
    for k in range(2):
        cx.close('C (Saa - na^2/pi)(Sbb - nb^2/pi) = |Sab|^2', c[k] * (p[k] - na * na / math.pi) * (q[k] - nb * nb / math.pi),
                 r[k][0] ** 2 + r[k][1] ** 2, 1e-3)
        cx.close('one noise for both (list)', one[k], eq[k], 1e-6)
        cx.close('one noise for both (number)', num[k], eq[k], 1e-6)


def refuse(cx):
    x = cx.reals('x', (8,), -3, 3)
    cx.raises('too few segments', Exception, P.coherence, x, x.copy(), 8)
    cx.raises('too few segments', Exception, P.coherence, x, x.copy(), 7)
    z = np.array([1j, 2, 3, 4, 5, 6, 7, 8])
    cx.raises('complex data', Exception, P.cpsd, x, z, 4, 1.0)
    cx.raises('complex data', Exception, P.cpsd_quasisync, z[:7], x, 4, 1.0)


def unit(cx, z, X, Y, w, tag):
    """z is the unit complex number with the direction of Y / X"""
    for k in range(len(z)):
        c, s = dft(X, w, k + 1)
        d, t = dft(Y, w, k + 1)
        a, b = c * d + s * t, c * t - s * d        # Y conj(X)
        zr, zi = z[k]
        cx.assume(c * c + s * s >= 0.05)
        cx.assume(d * d + t * t >= 0.05)
        cx.close(tag + ': unit length', zr * zr + zi * zi, 1.0, 1e-4)
        cx.close(tag + ': direction', zr * b - zi * a, 0.0, 1e-3)
        cx.check(tag + ': sense', zr * a + zi * b >= -1e-3)


def phase(nm, free):
    def f(cx):
        X, Y = mix(cx, 4, A, B, 's', free == 'a'), mix(cx, 4, B, A, 't', free == 'b')
        z = P.phase_angle(cx.array(X, 'float64'), cx.array(Y, 'float64'), 4, window=nm)
        unit(cx, [(v.real, v.imag) for v in lst(z)], X, Y, win(nm, 4), 'one segment')
    return Harness('phase_%s_%s' % (nm, free), f, bounds='one-parameter and fixed record of 4 values, window %s' % nm)


def unitc(X, Y, w, k):
    c, s = dft(X, w, k)
    d, t = dft(Y, w, k)
    z = complex(d, t) / complex(c, s)
    return z / abs(z)


def phase2(la, lb, free):
    """several segments: the average of the segments' unit vectors"""
    def f(cx):
        w = win('hann', 4)
        S, L = segs(min(la, lb), 4), None
        n = len(S)
        st = int((max(la, lb) - 4) / (n - 1))
        L = [i * st for i in range(n)]
        sa, sb = (S, L) if la <= lb else (L, S)
        s = cx.real('s', -2, 2) if free == 'a' else 0.25
        t = cx.real('t', -2, 2) if free == 'b' else 0.25
        # only the samples after the last-but-one segment are free
        ea, eb = sa[-2] + 4, sb[-2] + 4
        X = [A[i] + (s * B[i] if i >= ea else 0) for i in range(la)]
        Y = [B[i] + (t * A[i] if i >= eb else 0) for i in range(lb)]
        z = P.phase_angle(cx.array(X, 'float64'), cx.array(Y, 'float64'), 4)
        fixed = [sum(unitc(X[i:i + 4], Y[j:j + 4], w, k) for i, j in zip(sa[:-1], sb[:-1])) for k in (1, 2)]
        rest = [(v.real * n - q.real, v.imag * n - q.imag) for v, q in zip(lst(z), fixed)]
        unit(cx, rest, X[sa[-1]:sa[-1] + 4], Y[sb[-1]:sb[-1] + 4], w, 'last of %d segments' % n)
    return Harness('phase_%d_%d_%s' % (la, lb, free), f, bounds='records of %d and %d values, last segment of one free in one parameter' % (la, lb))


def multiple(cx):
    """k*a is in phase (or opposite) with a in every segment"""
    l = 10
    g = cx.real('gain', 0.5, 3)
    neg = cx.bool('negative')
    if neg:
        g = -g
    y = cx.array([v * g for v in A[:l]], 'float64')
    z = P.phase_angle(np.array(A[:l]), y, 4)
    for v in lst(z):
        cx.close('in phase', v.real, -1.0 if neg else 1.0, 1e-4)
        cx.close('in phase', v.imag, 0.0, 1e-4)


def harnesses(tier):
    q = tier == 'quick'
    hs = [csd(4, 4, 'hann'), csd(7, 4, None), csd(5, 5, 'hamm'), csd(9, 4, 'hann'),
          quasi(6, 8, 4), quasi(8, 6, 4), quasi(9, 7, 4, None), quasi(4, 5, 4), quasi(11, 6, 4),
          coher(8, 8, 4, True, 'a'), coher(8, 8, 4, False, 'b'), coher(8, 11, 4, False, 'a'), coher(11, 8, 4, True, 'a'), coher(11, 8, 4, True, 'b'),
          coher(10, 10, 5, True, 'a')]
    hs += [quasi(a, b, n) for a in range(4, 13) for b in range(a + 1, 15) for n in (3, 4, 5)
           if a >= n and (a, b, n) not in ((6, 8, 4), (4, 5, 4))]
    hs += [csd(12, 6, 'hann'), csd(16, 8, 'hamm'), quasi(16, 12, 6), quasi(10, 16, 5), coher(16, 13, 6, True, 'a'), coher(13, 16, 5, False, 'b'), coher(16, 16, 6, True, 'b')]
    hs += [phase(w, x) for w in (None,) for x in 'ab'] + [phase2(*l, x) for l in ((8, 8), (9, 10), (12, 9)) for x in 'ab']
    if not q:
        hs += [csd(24, 8, 'hann'), csd(19, 10, None), quasi(20, 27, 8), quasi(31, 22, 6), coher(16, 14, 8, True, 'a'), coher(14, 16, 7, False, 'b')]
    return hs + [Harness('same', same, bounds='12 values in a one-parameter family, any gain and offset, nfft 4'),
                 Harness('noise', noise, bounds='one pair of records, any two noise levels up to 0.3'), Harness('refuse', refuse, bounds='8 values'),
                 phase('hann', 'a'), phase('hann', 'b'), phase2(9, 9, 'b'), phase2(8, 11, 'b'), phase2(11, 8, 'a'),
                 Harness('multiple', multiple, bounds='10 values, any gain')]
