"""I01: TRDI profile data decode."""
import numpy as np
from symx.runner import Harness
from checks.common import arr, quiet_log
from checks import rdiwire as W
from checks.wire import Rec
from dolfyn.io import rdi


def load(cx, data, nens=None, **kw):
    p = cx.file(data)
    with rdi._RDIReader(p, debug_level=-1, **kw) as r:
        return r.load_data(nens=nens)


IDS = {'vel': 256, 'corr': 512, 'amp': 768, 'prcnt_gd': 1024, 'status': 1280}


def blocks(cx, t, nc, nms, layer=0):
    """-> [(name, Rec, expected[cell][beam])]"""
    out = []
    for nm in nms:
        f = W.cells16 if nm == 'vel' else W.cells8
        r, e = f(cx, '%s%s%d' % (nm, '_sl' if layer else '', t), IDS[nm] + layer, nc)
        out.append((nm, r, e))
    return out


def compare(cx, dv, nm, e, t, sfx=''):
    nc = len(e)
    for i in range(nc):
        for b in range(4):
            got, w = dv[nm + sfx][b, i, t], e[i][b]
            if nm == 'vel':
                w = cx.ite(w == -32768, float('nan'), w * .001)
            cx.close(nm + sfx, got, w, 1e-5)


def profile(nc, n, nms, order=None, name='profile', ver=(16, 28), drop=()):
    """each cell and beam of each ensemble decodes to its own number"""
    def f(cx):
        ens, want = [], []
        for t in range(n):
            fx, _ = W.fixed(cx, nc, 'f%d' % t, ver=ver)
            v, x = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0), ver=ver)
            bl = blocks(cx, t, nc, nms)
            want.append(bl)
            ens.append([fx, v] + [b[1] for b in bl])
        tail = W.pd0(cx, [W.fixed(cx, nc, 'ft', ver=ver)[0], W.var(cx, 'vt', ver=ver)[0]])
        dat, bb = load(cx, W.rdi_file(cx, ens, tail=tail))
        dv = dat['data_vars']
        cx.check('ensembles', bb is None and all(dv[nm].shape == (4, nc, n) for nm in nms) and dat['coords']['time'].shape == (n,))
        for t in range(n):
            for nm, r, e in want[t]:
                compare(cx, dv, nm, e, t)
    return Harness(name, f, bounds='%d ensembles of %d cells, any data bytes but 7f, %s' % (n, nc, '/'.join(nms)))


def any_byte(nm):
    """one cell whose bytes may be the sync byte too"""
    def f(cx):
        r = Rec(cx, 'c').pack('H', IDS[nm])
        w = r.i16('a') if nm == 'vel' else r.u8('a')
        r.pack('hhh' if nm == 'vel' else 'BBB', 1, 2, 3)
        e = [[w, 1, 2, 3]]
        tail = W.pd0(cx, [W.fixed(cx, 1, 'ft')[0], W.var(cx, 'vt')[0]])
        dat, bb = load(cx, W.rdi_file(cx, [[W.fixed(cx, 1)[0], W.var(cx, 'v')[0], r]], tail=tail))
        cx.check('one ensemble', dat['data_vars'][nm].shape == (4, 1, 1))
        compare(cx, dat['data_vars'], nm, e, 0)
    return Harness('any_byte_' + nm, f, bounds='1 ensemble, one cell with any byte value')


def range_axis(cx):
    """cell centres from first-bin distance and cell size"""
    nc = 4
    fx, x = W.fixed(cx, nc, 'f', sym=True, coord=0)
    v, _ = W.var(cx, 'v')
    tail = W.pd0(cx, [W.fixed(cx, nc, 'f2')[0], W.var(cx, 'vt')[0]])
    dat, bb = load(cx, W.rdi_file(cx, [[fx, v]], tail=b'\x7f\x7f' + bytes([2, 0]) + b'\x7f\x7f'), nens=1)
    rg = dat['coords']['range']
    cx.check('cells', rg.shape == (nc,))
    for i in range(nc):
        cx.close('range', rg[i], x['bin1_dist_m'] + x['cell_size'] * i, 1e-3)


def surface(cx):
    """surface-layer profile: own cell count, own axis, trimmed to length"""
    nc, ns, n = 3, 2, 2
    ens, want = [], []
    for t in range(n):
        fx, _ = W.fixed(cx, nc, 'f%d' % t, ver=(56, 0))
        v, _ = W.var(cx, 'v%d' % t, clock=(20, 1, 2, 3, 4, 5 + t, 0), ver=(56, 0))
        sl = Rec(cx, 'sl%d' % t, W.SYNC).pack('HBHH', 16, ns, 50, 120)
        bl = blocks(cx, t, nc, ['vel'])
        bs = blocks(cx, t, ns, ['vel', 'corr', 'amp', 'prcnt_gd', 'status'], layer=16)
        want.append((bl, bs))
        ens.append([fx, v, sl] + [b[1] for b in bl] + [b[1] for b in bs])
    tail = W.pd0(cx, [W.fixed(cx, nc, 'ft', ver=(56, 0))[0]])
    dat, bb = load(cx, W.rdi_file(cx, ens, tail=tail))
    dv = dat['data_vars']
    cx.check('shapes', dv['vel_sl'].shape == (4, ns, n) and dv['vel'].shape == (4, nc, n))
    rs = dat['coords']['range_sl']
    cx.check('surface axis', rs.shape == (ns,) and abs(float(rs[0]) - 1.2) < 1e-6 and abs(float(rs[1]) - 1.7) < 1e-6)
    cx.check('rotated with the rest', 'vel_sl' in dat['attrs']['rotate_vars'])
    for t in range(n):
        for nm, r, e in want[t][0]:
            compare(cx, dv, nm, e, t)
        for nm, r, e in want[t][1]:
            compare(cx, dv, nm, e, t, '_sl')


def dual(nb, n=2):
    """a second profile of the same ensembles (narrow and broad band) does not
    disturb the first"""
    def f(cx):
        nc = 2
        ens, want = [], []
        for t in range(n):
            c = (20, 1, 2, 3, 4, 5 + t, 0)
            fx, fb = W.fixed(cx, nc, 'f%d' % t)[0], W.fixed(cx, nb, 'g%d' % t, id=1)[0]
            v, vb = W.var(cx, 'v%d' % t, num=t + 1, clock=c)[0], W.var(cx, 'w%d' % t, num=t + 1, clock=c, id=0x81)[0]
            bl, b2 = blocks(cx, t, nc, ALL), [(nm, r) for nm, r, e in blocks(cx, t + 10, nb, ALL, layer=1)]
            want.append(bl)
            ens.append([fx, fb, v, vb] + [r for a, b in zip(bl, b2) for r in (a[1], b[1])])
        tail = W.pd0(cx, [W.fixed(cx, nc, 'ft')[0], W.fixed(cx, nb, 'gt', id=1)[0], W.var(cx, 'vt')[0]])
        ds = rdi.read_rdi(cx.file(W.rdi_file(cx, ens, tail=tail)))
        cx.check('first profile returned', ds['vel'].shape == (4, nc, n) and ds['time'].shape == (n,) and ds['range'].shape == (nc,))
        for t in range(n):
            for nm, r, e in want[t]:
                compare(cx, ds, nm, e, t)
    return Harness('dual_%d' % nb, f, bounds='2 ensembles of 2 cells and %d cells of a second profile, any data bytes but 7f' % nb)


def debug(level):
    """the debug log changes nothing"""
    def f(cx):
        nc, n = 2, 2
        ens, want = [], []
        for t in range(n):
            bl = blocks(cx, t, nc, ALL)
            want.append(bl)
            ens.append([W.fixed(cx, nc, 'f%d' % t)[0], W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0))[0]] + [b[1] for b in bl])
        tail = W.pd0(cx, [W.fixed(cx, nc, 'ft')[0], W.var(cx, 'vt')[0]])
        with quiet_log():
            ds = rdi.read_rdi(cx.file(W.rdi_file(cx, ens, tail=tail)), debug_level=level)
        cx.check('ensembles', ds['vel'].shape == (4, nc, n))
        for t in range(n):
            for nm, r, e in want[t]:
                compare(cx, ds, nm, e, t)
    return Harness('debug_%d' % level, f, bounds='2 ensembles of 2 cells, any data bytes but 7f, debug level %d' % level)


ALL = ['vel', 'corr', 'amp', 'prcnt_gd', 'status']


def harnesses(tier):
    h = [profile(2, 2, ALL), profile(1, 3, ['vel', 'amp'], name='three'),
         profile(3, 1, ['amp', 'vel', 'corr'], name='order'),
         any_byte('vel'), any_byte('amp'), any_byte('corr'),
         Harness('range_axis', range_axis, bounds='4 cells, any first bin and cell size'),
         Harness('surface', surface, bounds='2 ensembles, 3 cells and 2 surface cells, any data bytes but 7f')]
    h += [profile(6, 4, ALL, name='profile_6x4'), profile(20, 2, ['vel'], name='profile_20x2'), any_byte('prcnt_gd'), any_byte('status'),
              profile(2, 2, ALL, name='profile_v8', ver=(8, 35)), profile(2, 2, ALL, name='profile_v50', ver=(50, 40)), profile(2, 2, ALL, name='profile_v23', ver=(10, 16))]
    h += [dual(2), dual(3), dual(1), debug(0), debug(2)]
    if tier == 'thorough':
        h += [profile(40, 3, ALL, name='profile_40x3'), profile(4, 40, ['vel', 'corr'], name='profile_4x40')]
    return h
