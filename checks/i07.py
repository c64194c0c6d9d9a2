"""I07: Nortek AWAC files."""
import numpy as np
import math
from symx.runner import Harness
from checks.common import arr, pick
from checks import nwire as W
from dolfyn.io import nortek
from checks.i06 import load, t0, epoch

ENV = ('error', 'batt', 'c_sound', 'heading', 'pitch', 'roll', 'pmsb', 'status', 'plsw', 'temp')


def build(cx, n, nbins, symdata=(), symenv=(), clk=None, **kw):
    kw.setdefault('avg', 60)
    freq = kw.pop('freq', 1000)
    r0 = [W.hw(cx, b'WPR 1234'), W.head(cx, freq=freq)]
    u, v = W.user(cx, nbins=nbins, **kw)
    recs, xs = r0 + [u], []
    for i in range(n):
        r, x = W.awac(cx, (clk or (lambda i: (20, 2, 28, 23, 58 + i, 0) if i < 2 else (20, 2, 29, 0, i - 2, 0)))(i), nbins, 'p%d' % i,
                      sym=(('vel', 'amp') if i in symdata else ()) + (ENV if i in symenv else ()))
        recs.append(r)
        xs.append(x)
    return recs, xs, v


def compare(cx, ds, x, i):
    for b in range(len(x['vel'])):
        for k in range(len(x['vel'][b])):
            cx.close('vel', ds['vel'].values[b, k, i], x['vel'][b][k], 2e-5, rel=1e-6)
            cx.close('amp', ds['amp'].values[b, k, i], x['amp'][b][k], 0)


def env(cx, ds, x, i):
    for nm in ('error', 'batt', 'c_sound', 'heading', 'pitch', 'roll', 'pressure', 'status', 'temp'):
        cx.close(nm, ds[nm].values[i], x[nm], 2e-3, rel=1e-6)


def raw(cx, recs, **kw):
    p = cx.file(cx.mkbytes([r.b for r in recs]), name='data.wpr')
    with nortek._NortekReader(p, do_checksum=False, **kw) as r:
        r.readfile()
    r.dat2sci()
    return r.data


def data(n, nbins, nens=None, name='data'):
    def f(cx):
        recs, xs, _ = build(cx, n, nbins, symdata=range(n))
        ds = load(cx, recs, nens=nens)
        lo, hi = nens if isinstance(nens, tuple) else (0, nens or n)
        cx.check('profiles', ds['vel'].shape == (3, nbins, hi - lo) and ds['time'].shape == (hi - lo,))
        for i in range(lo, hi):
            compare(cx, ds, xs[i], i - lo)
            w = epoch((20, 2, 28, 23, 58 + i, 0) if i < 2 else (20, 2, 29, 0, i - 2, 0))
            cx.check('time', ds['time'].values[i - lo] == w)
        cx.check('make', (ds.attrs['inst_make'], ds.attrs['inst_model'], ds.attrs['inst_type']) == ('Nortek', 'AWAC', 'ADCP'))
        cx.check('axes', ds['range'].shape == (nbins,) and ds['beam2inst_orientmat'].shape == (3, 3))
    return Harness(name, f, bounds='%d profiles of %d cells, nens %s, any bytes' % (n, nbins, nens))


def environment(cx):
    recs, xs, _ = build(cx, 2, 2, symenv=(0, 1))
    ds = load(cx, recs)
    for i in range(2):
        env(cx, ds, xs[i], i)


def cells(freq):
    """cell size, blanking and cell positions of the configuration counts"""
    def f(cx):
        recs, xs, v = build(cx, 1, 4, freq=freq, sym=('binlen', 'blank'))
        cx.assume(v['binlen'] > 64)
        dat = raw(cx, recs)
        at, rg = dat['attrs'], dat['coords']['range']
        coef = {2000: .0239, 1000: .0478, 600: .0797, 400: .1195}[freq]
        cs = v['binlen'] / 256. * coef * math.cos(math.radians(25))
        bd = v['blank'] * .0229 * math.cos(math.radians(25)) - cs
        cx.close('cell size', at['cell_size'], cs, .0105)
        cx.close('blanking', at['blank_dist'], bd, .0205)
        for i in range(4):
            w = at['cell_size'] * (i + 1) + at['blank_dist']
            cx.close('centre', rg[i], w, 1e-4, rel=1e-5)
    return Harness('cells_%d' % freq, f, bounds='any bin length above 64 counts and blanking counts, %d kHz' % freq)


def beams(cx):
    """head matrix: raw 16-bit numbers over 4096"""
    recs, xs, v = build(cx, 1, 2)
    h, m = W.head_sym(cx)
    recs[1] = h
    got = raw(cx, recs)['data_vars']['beam2inst_orientmat']
    cx.check('matrix', got.shape == (3, 3))
    for i in range(3):
        for j in range(3):
            cx.close('element', got[i, j], m[i][j] / 4096., 1e-9)


def truncated(cx):
    cut = pick(cx, 'cut', 1, 14)
    n, nb = 3, 2
    recs, xs, _ = build(cx, n + 1, nb, symdata=(0, n - 1))
    recs[-1] = recs[-1].b[:cut * 9]
    ds = load(cx, recs)
    cx.check('whole profiles', ds['time'].shape == (n,))
    compare(cx, ds, xs[0], 0)
    compare(cx, ds, xs[n - 1], n - 1)


def waves(cx):
    """wave records between the profiles (0x31 header, 0x30 samples)"""
    recs, xs, _ = build(cx, 2, 2, symdata=(0, 1))
    h = W.done(cx, W.rec(cx, 'wh', 0x31).zeros(2).raw(W.clock(20, 2, 28, 23, 58, 10)).zeros(48))
    w = W.done(cx, W.rec(cx, 'w', 0x30).zeros(2).zeros(18))
    ds = load(cx, recs[:-1] + [h, w, w] + recs[-1:])
    cx.check('profiles', ds['time'].shape == (2,))
    for i in range(2):
        compare(cx, ds, xs[i], i)


def harnesses(tier):
    return [data(3, 2), data(4, 2, 2, 'nens'), data(4, 2, (1, 4), 'window'), data(1, 4, name='single'),
            Harness('environment', environment, bounds='2 profiles, any bytes'),
            cells(2000), cells(1000), cells(600), cells(400),
            Harness('beams', beams, bounds='any matrix'),
            Harness('truncated', truncated, bounds='3 profiles and part of a fourth'),
            Harness('waves', waves, bounds='2 profiles with wave records between them')]
