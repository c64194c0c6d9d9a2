"""H01: time conversions keep the instant."""
import numpy as np
from datetime import datetime
from symx.runner import Harness
from checks.common import pick
from dolfyn import time as dt

DAYS = [datetime(1970, 1, 1), datetime(1969, 12, 31), datetime(2000, 2, 29), datetime(2020, 12, 31), datetime(2012, 6, 12)]
E0 = datetime(1970, 1, 1)


def day(cx):
    return DAYS[pick(cx, 'day', 0, len(DAYS) - 1)]


def us(cx):
    return cx.int('us', 0, 86400 * 10**6 - 1)


def since(t):
    """seconds since 1970 of a datetime"""
    x = t - E0
    return x.days * 86400 + x.seconds + x.microseconds / 10**6


def to_epoch(cx):
    d, u = day(cx), us(cx)
    t = cx.instant(d, u)
    w = (d - E0).days * 86400 + u / 10**6
    for nm, got in (('list', dt.date2epoch([t, t])[1]), ('single', dt.date2epoch(t)[0])):
        cx.close(nm, got, w, 1e-6)


def from_epoch(off):
    def f(cx):
        d, s = day(cx), cx.real('s', 0, 86400)
        e = s + (d - E0).days * 86400
        w = e + off * 3600
        for nm, x in (('scalar', e), ('list', [0., e]), ('array', cx.array([0., e]))):
            t = dt.epoch2date(x, offset_hr=off)
            cx.close(nm, since(t[-1]), w, 3e-6)
            cx.check('length', len(t) == (1 if nm == 'scalar' else 2))
    return Harness('from_epoch_%g' % off, f, bounds='any second of 5 days, offset %g h' % off)


def to_matlab(cx):
    d, u = day(cx), us(cx)
    got = dt.date2matlab([cx.instant(d, u)])[0]
    cx.close('datenum', got, d.toordinal() + 366 + u / (86400 * 10**6), 1e-9)


def from_matlab(cx):
    d, s = day(cx), cx.real('s', 0, 86399.9)
    n = d.toordinal() + 366 + s / 86400
    got = dt.matlab2date([float(d.toordinal() + 366), n])
    cx.check('day', got[0] == d)
    cx.close('instant', since(got[1]), (d - E0).days * 86400 + s, 1e-4)


def matlab_again(cx):
    d, u = day(cx), us(cx)
    t = cx.instant(d, u)
    got = dt.matlab2date(dt.date2matlab([t]))[0]
    cx.close('instant', since(got), since(t), 1e-4)


def to_dt64(lo, hi):
    def f(cx):
        s = cx.reals('s', (3,), lo, hi)
        got = dt.epoch2dt64(s)
        cx.check('kind', got.dtype == np.dtype('datetime64[ns]'))
        ns = got.astype('int64')
        for i in range(3):
            cx.close('instant', ns[i], s[i] * 1e9, 1000)
        one = dt.epoch2dt64(s[:1]).astype('int64')[0]
        cx.close('one', one, s[0] * 1e9, 1000)
        back = dt.dt642epoch(got)
        for i in range(3):
            cx.close('back', back[i], s[i], 1e-6)
        dates = dt.dt642date(got)
        for i in range(3):
            cx.close('date', since(dates[i]), s[i], 3e-6)
    return Harness('to_dt64_%s' % ('before' if lo < 0 else 'after'), f, bounds='3 instants of one day')


def gaps(n, hz):
    """known times stay, gaps lie evenly between their neighbours, ends step on"""
    def f(cx):
        t = cx.reals('t', (n,), 0, 1000, nan=True)
        known = [i for i in range(n) if not cx.isnan(t[i])]
        cx.assume(len(known) > 0)
        v = [t[i] for i in range(n)]
        got = dt._fill_time_gaps(cx.array([t[i] for i in range(n)]), hz)
        for i in range(n):
            p = [k for k in known if k <= i]
            q = [k for k in known if k >= i]
            if p and q:
                p, q = p[-1], q[0]
                w = v[p] if p == q else v[p] + (v[q] - v[p]) * (i - p) / (q - p)
            else:
                k = (p or q)[-1] if p else q[0]
                w = v[k] + (i - k) / hz
            cx.close('time', got[i], w, 1e-6)
    return Harness('gaps_%d_%g' % (n, hz), f, bounds='%d times, every pattern of missing ones, %g Hz' % (n, hz))


def harnesses(tier):
    T = tier != 'quick'
    hs = [Harness('to_epoch', to_epoch, bounds='any microsecond of 5 days'),
          from_epoch(0), from_epoch(-7), from_epoch(5.5),
          Harness('to_matlab', to_matlab, bounds='any microsecond of 5 days'),
          Harness('from_matlab', from_matlab, bounds='any instant of 5 days'),
          Harness('matlab_again', matlab_again, bounds='any microsecond of 5 days'),
          to_dt64(1.5e9, 1.5e9 + 86400), to_dt64(-86400 * 20., -86400 * 19.),
          gaps(3, 1.), gaps(4, 2.), gaps(5, 16.)]
    hs += [gaps(6, 8.), gaps(7, 1.)]
    if T:
        hs += [gaps(8, 4.), gaps(8, 64.)]
    return hs
