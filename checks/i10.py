"""I10: Nortek Signature files: which records make which ensembles."""
import os
import numpy as np
import warnings
from symx.runner import Harness
from checks.common import pick
from checks import swire as W
from checks.i09 import load, when, epoch, same_time, compare
from dolfyn.io import nortek2
from dolfyn.io import nortek2_lib as lib


class File:
    """a file built record by record; by kind, the values and times in it"""

    def __init__(self, cx, sym=(), **kw):
        self.cx, self.sym, self.recs, self.x, self.t, self.n = cx, sym, [W.config(cx, **kw)], {}, {}, 0

    def add(self, id, i, dt=0, keep=True, **kw):
        """record of kind id for ensemble i"""
        f = {23: W.bt, 28: W.echo}.get(id, W.burst)
        if f is W.burst:
            kw.setdefault('id', id)
        if id == 24:
            kw.setdefault('nb', 1)
        if id in (26, 31):
            kw.setdefault('flags', ('le', 'ast', 'altraw'))
            kw.setdefault('nb', 1)
            kw.setdefault('nc', 0)
        w = when(i + dt, 4)
        kw.setdefault('ens', i + 1)
        dsym = id in self.sym or (id, i) in self.sym
        r, x = f(self.cx, 'r%d_%d' % (id, i), when=w, sym=False, dsym=dsym, **kw)
        self.recs.append(r)
        if keep:
            self.x.setdefault(id, []).append(x)
            self.t.setdefault(id, []).append(w)
        return self

    def other(self, id, body):
        self.recs.append(W.frame(self.cx, id, body))
        return self

    def load(self, **kw):
        return load(self.cx, self.recs, **kw)

    def check(self, ds, id, sel=None, at=None, skip=(), names=None):
        """records sel of kind id are the entries `at` of the dataset"""
        cx, tag = self.cx, {21: '', 22: '_avg', 23: '_bt', 24: '_b5', 28: '_echo'}[id]
        xs, ts = self.x[id], self.t[id]
        sel = range(len(xs)) if sel is None else sel
        at = range(len(list(sel))) if at is None else at
        for i, k in zip(at, sel):
            x = dict(xs[k])
            if id == 28:
                compare(cx, ds, {'echo': x['echo']}, i)
            else:
                nm = ('vel', 'amp', 'corr', 'dist', 'fom', 'pressure') if id != 24 else ('vel', 'amp', 'corr')
                compare(cx, ds, x, i, tag, names=names or nm)
            cx.check('time' + tag, same_time(ds['time' + tag].values[i], ts[k]))


def count(cx, ds, n, *tags):
    for tg in tags or ('',):
        cx.check('samples' + tg, ds['time' + tg].shape == (n,))


def window(nens, n=5, b5=False):
    def f(cx):
        F = File(cx, sym=(21, 24))
        for i in range(n):
            F.add(21, i)
            if b5:
                F.add(24, i, .03)
        ds = F.load(nens=nens)
        a, b = (0, nens) if isinstance(nens, int) else nens
        b = min(b, n)
        count(cx, ds, b - a, *(('', '_b5') if b5 else ('',)))
        F.check(ds, 21, range(a, b))
        cx.check('ensemble', list(ds['ensemble'].values) == list(range(a + 1, b + 1)))
        if b5:
            F.check(ds, 24, range(a, b))
    return Harness('window_%s%s' % (str(nens).replace(', ', '_').strip('()'), '_b5' if b5 else ''), f, bounds='%d bursts, nens %s' % (n, nens))


def counter(start, reset=None, step=1, n=4):
    """ensemble counters that start anywhere, restart or skip"""
    def f(cx):
        F = File(cx, sym=(21,))
        for i in range(n):
            e = start + i * step if reset is None or i < reset else 1 + i - reset
            F.add(21, i, ens=e).add(24, i, .03, ens=e)
        ds = F.load()
        count(cx, ds, n, '', '_b5')
        F.check(ds, 21)
        F.check(ds, 24)
    return Harness('counter_%d%s%s' % (start, '' if reset is None else '_r%d' % reset, '' if step == 1 else '_s%d' % step), f,
                   bounds='%d bursts and fifth beams counted from %d' % (n, start))


def cut(lo, hi, n=4, b5=False):
    """the file ends inside its last ensemble"""
    def f(cx):
        F = File(cx, sym=((21, 0), (21, n - 2)))
        for i in range(n):
            F.add(21, i)
            if b5:
                F.add(24, i, .03)
        last = sum(len(r.b) for r in F.recs[-1 - b5:])
        k = pick(cx, 'cut', lo, hi)
        data = [y for r in F.recs for y in r.b]
        data = data[:len(data) - last + k]
        ds = load(cx, [data])
        m = n - 1 if k < last else n
        count(cx, ds, m)
        F.check(ds, 21, range(m))
        if b5:
            F.check(ds, 24, range(m))
    return Harness('cut_%d%s' % (lo, '_b5' if b5 else ''), f, bounds='%d bursts, %d to %d bytes of the last ensemble there' % (n, lo, hi))


def single(cx):
    F = File(cx, sym=(21,)).add(21, 0)
    ds = F.load()
    count(cx, ds, 1)
    F.check(ds, 21)


def noise(ids, size=60, where=(1,), n=5):
    """records of kinds that are not data, with any content"""
    def f(cx):
        id = ids[pick(cx, 'id', 0, len(ids) - 1)]
        F = File(cx, sym=((21, 0), (21, 2)))
        for i in range(n):
            F.add(21, i)
            if i in where:
                r = W.Rec(cx, 'x%d' % i)
                if id == 160:
                    r.pack('B', 18).raw(b'1,2,3\r\n\0')
                elif size > 1000 or id in (27, 29, 30, 35, 36):
                    # stored like the others: own header with its own counter
                    W.head(cx, r, {}, 21, when(i, 4), 0, 0, i + 1, sym=False)
                    r.raw(bytes(j * 7 % 251 for j in range(size)))
                else:
                    r.skip('junk', size)
                F.other(id, r)
        ds = F.load()
        count(cx, ds, n)
        F.check(ds, 21)
    return Harness('noise_%d%s' % (ids[0], '' if size < 1000 else '_big'), f, bounds='records of kinds %s, %d bytes' % (list(ids), size))


def missing(gone):
    """records lost from the middle of the file: (kind, ensemble)"""
    def f(cx):
        n = 6
        F = File(cx, sym=((21, 4), (24, 4), (21, 2), (24, 2)))
        at = {21: [], 24: []}
        k = 0
        for i in range(n):
            have = [id for id in (21, 24) if (id, i) not in gone]
            for id in have:
                F.add(id, i, .03 * (id == 24))
                at[id].append(k)
            k += bool(have)
        ds = F.load()
        count(cx, ds, k, '', '_b5')
        for id in (21, 24):
            F.check(ds, id, at=at[id], names=('vel', 'amp', 'corr'))
        for i in range(k):
            cx.check('status tells', (int(ds['status'].values[i]) == 0) == (i not in at[21])
                     and (int(ds['status_b5'].values[i]) == 0) == (i not in at[24]))
    return Harness('missing_' + '_'.join('%d@%d' % g for g in gone), f, bounds='6 ensembles of burst and fifth beam without %s' % (gone,))


def lost_b5(cx):
    """sensors shared with the fifth beam, where its record is lost"""
    F = File(cx, sym=(21,))
    for i in range(5):
        F.add(21, i)
        if i != 2:
            F.add(24, i, .03)
    ds = F.load()
    F.check(ds, 21, names=('vel', 'amp', 'corr'))
    for nm, v in [('c_sound', 1500), ('temp', 12.34), ('batt', 12), ('heading', 45)]:
        for i in range(5):
            cx.close('shared sensors', ds[nm].values[i], v, 1e-3)


def altraw_status(cx):
    """the altimeter status word, with its unused bits"""
    tilt, multi, nb = pick(cx, 'tilt', 0, 3), pick(cx, 'multi', 0, 1), (1, 4, 8, 15)[pick(cx, 'beams', 0, 3)]
    pw, rest = pick(cx, 'power', 0, 3), pick(cx, 'unused', 0, 1)
    w = tilt | multi << 2 | nb << 3 | pw << 7 | (0xfc00 if rest else 0)
    F = File(cx)
    for i in range(3):
        F.add(21, i, flags=('vel', 'le', 'ast'), status_alt=w)
        F.add(26, i, .06, status_alt=w)
    a = F.load().attrs
    cx.check('tilt', int(a['tilt_over_5deg']) == tilt & 1 and int(a['tilt_over_10deg']) == tilt >> 1)
    cx.check('altimeter beams', int(a['multibeam_alt']) == multi)
    cx.check('power level', a['power_level_alt'] == ['high', 'med-high', 'med-low', 'low'][pw])


def altraw(every, n=6, nens=None, b5=True, first=0, ah=False):
    """raw altimeter records beside some of the bursts"""
    def f(cx):
        F = File(cx, sym=(26, (21, n - 1)))
        where = []
        for i in range(n):
            F.add(21, i, flags=('vel', 'amp', 'corr', 'le', 'ast'), status_alt=9)
            if b5:
                F.add(24, i, .03)
            if i % every == first:
                F.add(26, i, .06, flags=('le', 'ast', 'altraw') + (('ahrs',) if ah else ()))
                where.append(i)
        ds = F.load(nens=nens)
        a, b = (0, n) if nens is None else nens
        # the last ensemble is kept only if its size is the usual one
        sel = [k for k, i in enumerate(where) if a <= i < b]
        m = ds['time'].shape[0]
        cx.check('samples', m in (b - a, b - a - 1) if b == n else m == b - a)
        F.check(ds, 21, range(a, a + m))
        if b5:
            F.check(ds, 24, range(a, a + m))
        sel = [k for k in sel if where[k] < a + m]
        cx.check('altimeter samples', ds['time_altraw'].shape == (len(sel),))
        for j, k in enumerate(sel):
            x = F.x[26][k]
            cx.check('time', same_time(ds['time_altraw'].values[j], F.t[26][k]))
            for i, w in enumerate(x['samp_alt']):
                cx.close('samp', ds['samp_altraw'].values[i, j], w, 1e-6)
            for nm in ('le_dist_alt', 'le_quality_alt', 'ast_dist_alt', 'ast_quality_alt', 'ast_offset_time_alt', 'pressure_alt'):
                cx.close(nm, ds[nm + 'raw'].values[j], x[nm], 1e-4, rel=1e-6)
            cx.close('distance', ds['dsamp_altraw'].values[j], x['dsamp_alt'], 1e-6, rel=1e-6)
            cx.check('number', int(ds['nsamp_altraw'].values[j]) == 3)
    return Harness('altraw_%d%s%s%s%s' % (every, '_%d' % first if first else '', '' if nens is None else '_w%d' % nens[0], '' if b5 else '_nob5', '_ahrs' if ah else ''), f,
                   bounds='%d bursts, raw altimeter with every %d' % (n, every))


def again(cx):
    """a second reading, by the stored index or a rebuilt one, gives the same"""
    F = File(cx, sym=(21,))
    for i in range(3):
        F.add(21, i)
    p = cx.file(cx.mkbytes([r.b for r in F.recs]), name='data.ad2cp')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in range(3):
            ds = nortek2.read_signature(p, userdata=False, rebuild_index=k == 2)
            count(cx, ds, 3)
            F.check(ds, 21)


def crop(a, b, n=5, b5=False):
    def f(cx):
        F = File(cx, sym=(21, 24))
        for i in range(n):
            F.add(21, i)
            if b5:
                F.add(24, i, .03)
        p = cx.file(cx.mkbytes([r.b for r in F.recs]), name='data.ad2cp')
        q = os.path.join(os.path.dirname(p), 'crop.ad2cp')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            lib.crop_ensembles(p, q, [a, b])
            ds = nortek2.read_signature(q, userdata=False)
        m = min(b, n)
        count(cx, ds, m - a)
        F.check(ds, 21, range(a, m))
        if b5:
            F.check(ds, 24, range(a, m))
    return Harness('crop_%d_%d%s' % (a, b, '_b5' if b5 else ''), f, bounds='%d ensembles cropped to [%d, %d)' % (n, a, b))


def harnesses(tier):
    return [window(2), window((1, 4)), window((2, 9)), window((1, 3), b5=True), window((0, 5)),
            counter(0), counter(7), counter(1000, reset=2), counter(1, step=3), counter(2 ** 32 - 10), counter(1, step=0, n=5),
            cut(0, 40), cut(41, 80), cut(81, 118), cut(20, 70, b5=True), cut(140, 200, b5=True),
            Harness('single', single, bounds='one burst'), noise((27, 29, 30, 35, 36)), noise((160,)), noise((0x2a, 0x55, 0, 255)),
            noise((35,), size=40000, where=(1,)),
            missing([(24, 2)]), missing([(21, 2)]), missing([(21, 2), (24, 2)]), missing([(24, 2), (24, 3)]), missing([(21, 1), (24, 3)]), missing([(21, 2), (21, 3)]),
            Harness('lost_b5', lost_b5, bounds='5 ensembles, one without fifth beam'),
            altraw(1), altraw(2), altraw(3), altraw(4, first=1), altraw(2, nens=(2, 5)), altraw(3, nens=(1, 6)), altraw(2, b5=False), altraw(2, ah=True), Harness('altraw_status', altraw_status, bounds='3 bursts with raw altimeter, every status but 4 beam counts', max_paths=400),
            Harness('again', again, bounds='3 bursts'),
            crop(0, 3), crop(1, 4), crop(2, 9), crop(1, 3, b5=True)]
