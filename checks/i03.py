"""I03: TRDI ensemble framing."""
import itertools
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import rdiwire as W
from checks.i01 import load, blocks, compare
from checks.i04 import bottom_block
from checks.wire import Rec


def ensemble(cx, t, nc=1, extra=(), order=None, nms=('vel', 'amp')):
    fx, _ = W.fixed(cx, nc, 'f%d' % t)
    v, _ = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4 + (5 + t) // 60, (5 + t) % 60, 0))
    bl = blocks(cx, t, nc, list(nms))
    bs = [b[1] for b in bl]
    for at, e in extra:
        bs.insert(at, e)
    if order:
        bs = [bs[i] for i in order]
    return W.pd0(cx, [fx, v] + bs), bl


def check(cx, dat, want, ts):
    dv, n = dat['data_vars'], len(ts)
    cx.check('ensembles', dv['vel'].shape[-1] == n and dat['coords']['time'].shape == (n,) and [int(x) for x in np.asarray(arr(dv['number'])).tolist()] == [t + 1 for t in ts])
    if dv['vel'].shape[-1] != n:
        return
    for j, t in enumerate(ts):
        for nm, r, e in want[t]:
            compare(cx, dv, nm, e, j)


def truncated(cx):
    """a file cut anywhere in its last ensembles keeps every ensemble that is
    complete and followed by another"""
    es = [ensemble(cx, t, nms=('vel',)) for t in range(3)]
    es.append(ensemble(cx, 3, nms=()))
    L = len(es[0][0])
    data = [x for e in es for x in (e[0].b if hasattr(e[0], 'b') else e[0])]
    cut = pick(cx, 'cut', 0, L - 1) + 2 * L
    dat, bb = load(cx, cx.mkbytes([data[:cut]]))
    check(cx, dat, [e[1] for e in es], [0, 1] if cut >= 2 * L + 2 else [0])


def nens(cx):
    """nens limits what is read to the first ones"""
    k = pick(cx, 'nens', 1, 5)
    es = [ensemble(cx, t) for t in range(4)]
    dat, bb = load(cx, cx.mkbytes([e[0] for e in es]), nens=k)
    check(cx, dat, [e[1] for e in es], list(range(min(k, 3))))


def garbage(where, n):
    """bytes that belong to no ensemble are passed over"""
    def f(cx):
        es = [ensemble(cx, t) for t in range(4)]
        g = Rec(cx, 'junk')
        g.skip('b', n)
        parts = []
        for t, e in enumerate(es):
            if where == t:
                parts.append(g.b)
            parts.append(e[0])
        dat, bb = load(cx, cx.mkbytes(parts))
        # the ensemble before the junk is followed by a sync pair or is lost
        keep = bool(g.b[0] == 127) and (bool(g.b[1] == 127) or bool(g.b[1] == 121))
        check(cx, dat, [e[1] for e in es], [t for t in range(3) if t != where - 1 or keep])
    return Harness('garbage_%d_%d' % (where, n), f, bounds='4 ensembles, %d bytes of any value before ensemble %d' % (n, where), max_paths=3000)


LENS = [0, 1, 3, 40, 200, 300, 600, 5000, 32767, 32768, 65535]


def false_sync(cx):
    """a sync pair outside an ensemble, whatever length follows it"""
    es = [ensemble(cx, t) for t in range(4)]
    g = Rec(cx, 'junk').raw(b'\x7f\x7f').pack('H', LENS[pick(cx, 'len', 0, len(LENS) - 1)])
    parts = [es[0][0], es[1][0], g.b, es[2][0], es[3][0]]
    dat, bb = load(cx, cx.mkbytes(parts))
    check(cx, dat, [e[1] for e in es], [0, 1, 2])


UNKNOWN = [0x0020, 0x0102, 0x0901, 0x3040, 0x30A8, 0x30FC, 0x4567, 0xFFFE]


def unknown(first):
    """data types the reader does not know are skipped, wherever they are"""
    def f(cx):
        u, at, n = pick(cx, 'id', 0, len(UNKNOWN) - 1), pick(cx, 'at', 0, 2), pick(cx, 'len', 0, 1) * 5
        ens = []
        for t in range(3):
            r = Rec(cx, 'u%d' % t, W.SYNC).pack('H', UNKNOWN[u])
            r.skip('x', n)
            ens.append(ensemble(cx, t, extra=[(at, r)] if first or t == 1 else []))
        ens.append(ensemble(cx, 3))
        dat, bb = load(cx, cx.mkbytes([e[0] for e in ens]))
        check(cx, dat, [e[1] for e in ens], [0, 1, 2])
    return Harness('unknown_%s' % ('everywhere' if first else 'later'), f, bounds='8 unknown ids of 0 and 5 bytes at every place', max_paths=200)


SKIP = {259: 74, 515: 186, 524: 4, 1027: 6, 3000: 32, 3841: 38, 8211: 83, 12800: 32, 12288: 32, 12496: 24, 12504: 48, 17408: 28, 17409: 82, 22531: 68, 22532: 21, 22785: 65, 22786: 105, 28673: 14,
        771: 36, 1793: 8, 1794: 8, 2560: 2, 2816: 2}


def known_skips(cx):
    """skipped data types, whatever their length in this file"""
    k = sorted(SKIP)
    u, at, d = k[pick(cx, 'id', 0, len(k) - 1)], pick(cx, 'at', 0, 1) * 2, pick(cx, 'more', 0, 1) * 3
    ens = []
    for t in range(3):
        r = Rec(cx, 'u%d' % t, W.SYNC).pack('H', u).zeros(SKIP[u] + d)
        ens.append(ensemble(cx, t, nc=2, extra=[(at, r)]))
    dat, bb = load(cx, cx.mkbytes([e[0] for e in ens]))
    check(cx, dat, [e[1] for e in ens], [0, 1])


def order(cx):
    """data types in any order and with spare bytes between them"""
    perms = list(itertools.permutations(range(4)))
    p, gap = perms[pick(cx, 'perm', 0, len(perms) - 1)], pick(cx, 'gap', 0, 2)
    ens, nms = [], ('vel', 'corr', 'amp', 'prcnt_gd')
    for t in range(3):
        bl = blocks(cx, t, 1, list(nms))
        bs = [list(bl[i][1].b) + [0] * gap for i in p]
        fx, _ = W.fixed(cx, 1, 'f%d' % t)
        v, _ = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0))
        ens.append((W.pd0(cx, [fx, v] + bs), bl))
    dat, bb = load(cx, cx.mkbytes([e[0] for e in ens]))
    check(cx, dat, [e[1] for e in ens], [0, 1])


def growing(cx):
    """cell count growing in a transect: earlier ensembles keep theirs, padded
    with missing values"""
    nc = [1, 1, 2, 2]
    es = [ensemble(cx, t, nc=nc[t], nms=('vel',)) for t in range(4)]
    dat, bb = load(cx, cx.mkbytes([e[0] for e in es]))
    dv = dat['data_vars']
    cx.check('cells', dv['vel'].shape == (4, 2, 3) and len(dat['coords']['range']) == 2)
    for t in range(3):
        compare(cx, dv, 'vel', es[t][1][0][2], t)
        if nc[t] == 1:
            for b in range(4):
                cx.check('missing cells', cx.isnan(dv['vel'][b, 1, t]))


def varying(cx):
    """any sequence of cell counts: cells an ensemble does not have are missing"""
    nc = [pick(cx, 'cells%d' % t, 1, 3) for t in range(3)] + [1]
    es = [ensemble(cx, t, nc=nc[t], nms=('vel',)) for t in range(4)]
    dat, bb = load(cx, cx.mkbytes([e[0] for e in es]))
    dv, m = dat['data_vars'], max(nc)
    cx.check('cells', dv['vel'].shape == (4, m, 3) and len(dat['coords']['range']) == m)
    for t in range(3):
        compare(cx, dv, 'vel', es[t][1][0][2], t)
        for i in range(nc[t], m):
            for b in range(4):
                cx.check('missing cells', cx.isnan(dv['vel'][b, i, t]))


def absent(cx):
    """an ensemble without a data type has no values of it"""
    at, n = pick(cx, 'at', 0, 3), 4
    es = []
    for t in range(n):
        r, x = bottom_block(cx, t, (16, 28))
        bl = blocks(cx, t, 1, ['amp', 'vel'])
        fx, _ = W.fixed(cx, 1, 'f%d' % t)
        v, _ = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0))
        es.append((W.pd0(cx, [fx, v, bl[0][1]] + ([] if t == at else [bl[1][1], r])), bl, x))
    tail = W.pd0(cx, [W.fixed(cx, 1, 'ft')[0], W.var(cx, 'vt')[0]])
    dat, bb = load(cx, cx.mkbytes([e[0] for e in es] + [tail]))
    dv = dat['data_vars']
    cx.check('ensembles', dv['vel'].shape == (4, 1, n) and dv['vel_bt'].shape == (4, n))
    for t in range(n):
        compare(cx, dv, 'amp', es[t][1][0][2], t)
        if t != at:
            compare(cx, dv, 'vel', es[t][1][1][2], t)
        for b in range(4):
            if t == at:
                cx.check('no velocity', cx.isnan(dv['vel'][b, 0, t]))
                cx.check('no bottom velocity', cx.isnan(dv['vel_bt'][b, t]))
                cx.check('no bottom distance', cx.isnan(dv['dist_bt'][b, t]))
            else:
                w = es[t][2]['vel'][b]
                cx.close('bottom velocity', dv['vel_bt'][b, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)


def many(n):
    """long files of small ensembles are read to the end"""
    def f(cx):
        fx, _ = W.fixed(cx, 1, 'f')
        e = [ensemble(cx, t, nms=('vel',) if t == n - 2 else ()) for t in (0, n - 2)]
        quiet = lambda t: W.pd0(cx, [fx, W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, t // 60 % 60, t % 60, 0))[0], b'\x00\x01' + bytes(8)])
        dat, bb = load(cx, cx.mkbytes([e[1][0] if t == n - 2 else quiet(t) for t in range(n)]))
        dv = dat['data_vars']
        cx.check('ensembles', dv['vel'].shape[-1] == n - 1 and dat['coords']['time'].shape == (n - 1,))
        if dv['vel'].shape[-1] == n - 1:
            compare(cx, dv, 'vel', e[1][1][0][2], n - 2)
            cx.check('numbers', bool((np.asarray(arr(dv['number'])).astype(int) == np.arange(n - 1) + 1).all()))
    return Harness('many_%d' % n, f, bounds='%d ensembles of 150 bytes' % n)


def harnesses(tier):
    h = [Harness('truncated', truncated, bounds='3 ensembles, cut at every byte of the last', max_paths=400),
         Harness('nens', nens, bounds='4 ensembles, nens 1..5'),
         garbage(0, 2), garbage(2, 2), garbage(3, 2), many(7), many(130),
         Harness('false_sync', false_sync, bounds='11 lengths after a stray sync pair'),
         unknown(True), unknown(False),
         Harness('known_skips', known_skips, bounds='23 skipped data types, two lengths, two places', max_paths=200),
         Harness('order', order, bounds='24 orders, 0..2 spare bytes', max_paths=200),
         Harness('absent', absent, bounds='4 ensembles, any one of them without velocity and bottom track'),
         Harness('varying', varying, bounds='3 ensembles of 1..3 cells each, in any order', max_paths=100),
         Harness('growing', growing, bounds='3 ensembles, 1 then 2 cells')]
    if tier == 'thorough':
        h += [garbage(3, 3), garbage(1, 3), garbage(6, 3), many(900)]
    return h
