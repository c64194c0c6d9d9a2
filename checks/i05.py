"""I05: TRDI files as datasets."""
import json
import os
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import rdiwire as W
from checks.i01 import load, blocks, IDS
from checks.i04 import CF, vmdas_block, epoch, bottom_block, nmea
from checks.wire import Rec
from dolfyn.io import api, rdi


def data(cx, n, nc, nms, extra=lambda t: [], **kw):
    ens, want = [], []
    for t in range(n):
        fx, xf = W.fixed(cx, nc, 'f%d' % t, **kw)
        v, xv = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 50))
        bl = blocks(cx, t, nc, nms)
        ens.append([fx, v] + [b[1] for b in bl] + extra(t))
        want.append((bl, xv))
    tail = W.pd0(cx, [W.fixed(cx, nc, 'ft', **kw)[0], W.var(cx, 'vt')[0]])
    return W.rdi_file(cx, ens, tail=tail), want


AX = {0: 'beam', 1: 'inst', 2: 'ship', 3: 'earth'}
DIR = {0: [1, 2, 3, 4], 1: ['X', 'Y', 'Z', 'err'], 2: ['X', 'Y', 'Z', 'err'], 3: ['E', 'N', 'U', 'err']}
NMS = ['vel', 'corr', 'amp', 'prcnt_gd', 'status']


def whole(coord, fn):
    """dimensions, coordinates and data of the dataset"""
    def f(cx):
        n, nc = 2, 3
        raw, want = data(cx, n, nc, NMS, coord=coord << 3)
        p = cx.file(raw, ('data.leg1.ENX' if coord == 3 else 'data.ENX.000'))
        ds = fn(p)
        cx.check('frame', ds.attrs['coord_sys'] == AX[coord] and [str(x) for x in ds['dir'].values] == [str(x) for x in DIR[coord]])
        cx.check('make', (ds.attrs['inst_make'], ds.attrs['inst_type'], ds.attrs['vel_gps_corrected']) == ('TRDI', 'ADCP', int(coord == 3)))
        t0 = np.datetime64('2020-01-02T03:04:05.500', 'ns')
        d = np.abs((ds['time'].values - (t0 + np.arange(n) * np.timedelta64(10 ** 9, 'ns'))).astype('int64'))
        cx.check('time', bool((d < 10 ** 6).all()))
        cx.check('range', bool(np.allclose(ds['range'].values.astype(float), 3 + 2. * np.arange(nc))) and ds['range'].attrs['units'] == 'm')
        cx.check('beam matrix', ds['beam2inst_orientmat'].shape == (4, 4) and ds['orientmat'].dims == ('earth', 'inst', 'time'))
        for nm in NMS:
            cx.check('dims ' + nm, ds[nm].dims == (('dir' if nm == 'vel' else 'beam'), 'range', 'time'))
        cx.check('units', ds['vel'].attrs['units'] == 'm s-1' and ds['heading'].attrs['units'] == 'degree')
        for t in range(n):
            for nm, r, e in want[t][0]:
                for i in range(nc):
                    for b in range(4):
                        w = e[i][b]
                        if nm == 'vel':
                            w = cx.ite(w == -32768, float('nan'), w * .001)
                        cx.close(nm, arr(ds[nm])[b, i, t], w, 1e-5)
            for nm in ('heading', 'pitch', 'roll', 'temp', 'pressure', 'c_sound', 'number'):
                cx.close(nm, arr(ds[nm])[t], want[t][1][nm], 1e-3)
    return Harness('whole_%s_%s' % (AX[coord], fn.__name__), f, bounds='2 ensembles, 3 cells, any data bytes but 7f')


def declination(cx):
    """a declination in the file or in the user data ends up applied once"""
    inst, user = pick(cx, 'inst', 0, 1), pick(cx, 'user', 0, 1)
    raw, want = data(cx, 1, 1, ['vel'], coord=0x18, heading_bias=(0, 1250 * inst))
    p = cx.file(raw)
    if user:
        with open(os.path.join(cx.tmpdir(), 'data.userdata.json'), 'w') as fo:
            json.dump({'declination': 10.0, 'note': 'mooring'}, fo)
    ds = api.read(p)
    at = ds.attrs
    cx.check('kept', at.get('note') == ('mooring' if user else None))
    cx.check('declination', at.get('declination') == (10.0 if user else 12.5 if inst else None) or abs(at['declination'] - (10.0 if user else 12.5)) < 1e-9)
    if inst or user:
        cx.check('flag', bool(at['declination_in_orientmat']))
    # the velocity turns by what the file does not have yet
    e = want[0][0][0][2][0]
    d = np.deg2rad((10. - 12.5 * inst) * user)
    for w in e:
        cx.assume(w != -32768)
    u, v = e[0] * .001, e[1] * .001
    c, s = float(np.cos(d)), float(np.sin(d))
    cx.close('u', arr(ds['vel'])[0, 0, 0], u * c + v * s, 1e-4)
    cx.close('v', arr(ds['vel'])[1, 0, 0], v * c - u * s, 1e-4)
    cx.close('w', arr(ds['vel'])[2, 0, 0], e[2] * .001, 1e-4)
    h = float(arr(ds['heading'])[0])
    cx.check('heading', abs(h - 45. - (10. - 12.5 * inst) * user) < 1e-3)


GPS = [[0, 0, 1, 2], [0, 1, 2, 3], [3, 3, 3, 3], [0, 1, 1, 1]]


def gps_times(cx):
    """repeated positions are kept once, each with its own values"""
    g = GPS[pick(cx, 'times', 0, len(GPS) - 1)]
    xs = {}

    def extra(t):
        r, x, po = vmdas_block(cx, t, 10. * g[t])
        xs[t] = x
        return [r]
    raw, want = data(cx, 4, 1, ['vel'], extra, coord=0x18)
    ds = rdi.read_rdi(cx.file(raw))
    first = [g.index(k) for k in sorted(set(g))]
    tg = ds['time_gps'].values
    exp = np.array([int(round((epoch(2020, 3, 2) + 10. * g[i]) * 1e9)) for i in first])
    cx.check('gps times', tg.shape == (len(first),) and bool((np.abs(tg.astype('datetime64[ns]').astype('int64') - exp) < 10 ** 6).all()))
    for nm in ('latitude_gps', 'longitude_gps', 'heading_gps', 'avg_speed_gps'):
        cx.check('dims', ds[nm].dims == ('time_gps',))
        for j, i in enumerate(first):
            cx.close(nm, arr(ds[nm])[j], xs[i][nm], 1e-3, rel=1e-6)
    hw = ds['hdwtime_gps'].values
    cx.check('hardware time', bool((hw.astype('datetime64[ns]') == ds['time'].values[first]).all()))


GAPS = [[None, 0, 1, 2], [0, None, 1, 2], [2, 1, 0, None], [0, None, 0, 1], [None, 5, None, 3]]


def gps_missing(cx):
    """ensembles without a position leave no entry among the positions"""
    g = GAPS[pick(cx, 'times', 0, len(GAPS) - 1)]
    xs = {}

    def extra(t):
        if g[t] is None:
            return []
        r, x, po = vmdas_block(cx, t, 10. * g[t])
        xs[t] = x
        return [r]
    raw, want = data(cx, 4, 1, ['vel'], extra, coord=0x18)
    ds = rdi.read_rdi(cx.file(raw))
    first = [g.index(k) for k in sorted(set(k for k in g if k is not None))]
    tg = ds['time_gps'].values
    exp = np.array([int(round((epoch(2020, 3, 2) + 10. * g[i]) * 1e9)) for i in first])
    cx.check('gps times', tg.shape == (len(first),) and bool((np.abs(tg.astype('datetime64[ns]').astype('int64') - exp) < 10 ** 6).all()))
    for nm in ('latitude_gps', 'longitude_gps', 'heading_gps', 'avg_speed_gps'):
        cx.check('dims', ds[nm].dims == ('time_gps',))
        for j, i in enumerate(first):
            cx.close(nm, arr(ds[nm])[j], xs[i][nm], 1e-3, rel=1e-6)
    hw = ds['hdwtime_gps'].values
    cx.check('hardware time', hw.shape == (len(first),) and bool((hw.astype('datetime64[ns]') == ds['time'].values[first]).all()))
    cx.check('every ensemble kept', ds['time'].shape == (4,))
    for t in range(4):
        w = want[t][0][0][2][0][0]
        cx.close('velocity', arr(ds['vel'])[0, 0, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)


def sounder(cx):
    """depth-sounder and bottom-track data stay on the ensemble times when
    GPS times repeat"""
    xs = {}

    def extra(t):
        g = nmea(cx, t, 104, 57).raw(b'$GPGGA,', b'%02d3456.00,' % [3, 3, 4][t]).pack('d', 45.5 + t).raw(b'N').pack('d', 100.25).raw(b'W').pack('BBff', 1, 8, 1., 2.).raw(b'M').pack('f', 0.).raw(b'M').pack('fH', 0., 7)
        d = nmea(cx, t, 106, 22).raw(b'$SDDBT,')
        d.pack('f', 30. + t)
        d.raw(b'f').pack('f', 10. + t).raw(b'm').pack('f', 5.).raw(b'F')
        r, x = bottom_block(cx, t, (16, 28))
        xs[t] = x
        return [g, d, r]
    raw, want = data(cx, 3, 1, ['vel'], extra, coord=0x18)
    ds = rdi.read_rdi(cx.file(raw))
    cx.check('positions', ds['time_gps'].shape == (2,) and bool(np.allclose(ds['latitude_gps'].values.astype(float), [45.5, 47.5])))
    cx.check('sounder', ds['dist_nmea'].dims == ('time',) and bool(np.allclose(ds['dist_nmea'].values.astype(float), [10, 11, 12])))
    cx.check('bottom track', ds['vel_bt'].dims == ('dir', 'time') and ds['dist_bt'].dims == ('beam', 'time'))
    for t in range(3):
        for b in range(4):
            cx.close('bottom distance', arr(ds['dist_bt'])[b, t], xs[t]['dist'][b] * .01, 1e-3, rel=1e-6)
            w = xs[t]['vel'][b]
            cx.close('bottom velocity', arr(ds['vel_bt'])[b, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)


def gga(cx, t, bad):
    r = nmea(cx, t, 104, 57 if bad != 'empty' else 20)
    if bad == 'empty':
        return r.raw(b'$GPGGA,,,,,,0,,,,,,,')
    r.raw(b'$GPGGA,' if not bad else b'\xff\xfe\xfd\xfcGA,', b'%02d3456.00,' % (3 + t))
    return r.pack('d', 45.5 + t).raw(b'N').pack('d', 100.25).raw(b'W').pack('BBff', 1, 8, 1., 2.).raw(b'M').pack('f', 0.).raw(b'M').pack('fH', 0., 7)


def dbt(cx, t, bad):
    r = nmea(cx, t, 106, 22 if bad != 'empty' else 18)
    if bad == 'empty':
        return r.raw(b'$SDDBT,,,,,,,,,*xx')
    return r.raw(b'$SDDBT,' if not bad else b'\xff\xfe\xfd\xfcBT,').pack('f', 30. + t).raw(b'f').pack('f', 10. + t).raw(b'm').pack('f', 5.).raw(b'F')


def messages(kind, last):
    """a garbled or empty message costs that message, nothing else"""
    def f(cx):
        n = 4
        at = pick(cx, 'at', 0, n - 1)
        ens, want = [], []
        for t in range(n):
            c = (20, 1, 2, 3, 4, 5 + t, 50)
            v, xv = W.var(cx, 'v%d' % t, num=t + 1, clock=c)
            bl = blocks(cx, t, 1, ['vel', 'amp'])
            b = kind if t == at else None
            nav = [dbt(cx, t, b), gga(cx, t, b)]
            fx = W.fixed(cx, 1, 'f%d' % t, coord=0x18)[0]
            ens.append([fx, v] + ([bl[0][1]] + nav + [bl[1][1]] if not last else [bl[0][1], bl[1][1]] + nav))
            want.append(bl)
        tail = W.pd0(cx, [W.fixed(cx, 1, 'ft', coord=0x18)[0], W.var(cx, 'vt')[0]])
        ds = rdi.read_rdi(cx.file(W.rdi_file(cx, ens, tail=tail)))
        good = [t for t in range(n) if t != at]
        cx.check('every ensemble', ds['time'].shape == (n,))
        cx.check('the positions received', ds['time_gps'].shape == (n - 1,) and bool(np.allclose(ds['latitude_gps'].values.astype(float), [45.5 + t for t in good])))
        d = ds['dist_nmea'].values.astype(float)
        cx.check('the depths received', d.shape == (n,) and all(abs(d[t] - 10 - t) < 1e-4 for t in good))
        cx.check('no depth where none was received', bool(np.isnan(d[at])))
        for t in range(n):
            for nm, r, e in want[t]:
                w = e[0][0]
                cx.close(nm, arr(ds[nm])[0, 0, t], cx.ite(w == -32768, float('nan'), w * .001) if nm == 'vel' else w, 1e-5)
    return Harness('messages_%s%s' % (kind, '_last' * last), f, bounds='4 ensembles, the message of any one of them %s' % kind)


def winriver1(cx):
    """first WinRiver: a position per ensemble inside the bottom-track block"""
    xs = {}

    def extra(t):
        nav = Rec(cx, 'n%d' % t).pack('HH', 8449, 12).raw(b'$GPGGA,12\x00')
        r, x = bottom_block(cx, t, (16, 28), wr=True)
        lat, lon, q = x['gps']
        for v in (lat, lon, q):
            cx.assume(v != 0)
        cx.assume(lon * CF < 179.9)
        xs[t] = x
        return [nav, r]
    raw, want = data(cx, 3, 1, ['vel'], extra, coord=0x18)
    ds = rdi.read_rdi(cx.file(raw))
    cx.check('ensembles', ds['time'].shape == (3,) and ds['latitude_gps'].shape == (3,))
    for t in range(3):
        lat, lon, q = xs[t]['gps']
        cx.close('latitude', arr(ds['latitude_gps'])[t], lat * CF, 2e-5, rel=1e-7)
        cx.close('longitude', arr(ds['longitude_gps'])[t], lon * CF, 5e-5, rel=1e-7)
        for b in range(4):
            w = xs[t]['vel'][b]
            cx.close('bottom velocity', arr(ds['vel_bt'])[b, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)


def rate(cx):
    """ensembles per second: seconds between pings times pings per ensemble"""
    pings, (m, sec, hun) = [(1, (0, 0, 50)), (3, (0, 2, 25)), (60, (0, 1, 0)), (2, (10, 0, 0))][pick(cx, 'setting', 0, 3)]
    raw, want = data(cx, 2, 1, ['vel'], pings=pings, tpg=(m, sec, hun))
    fs = rdi.read_rdi(cx.file(raw)).attrs['fs']
    cx.close('sampling rate', fs * (pings * (60 * m + sec + hun / 100.)), 1.0, 1e-6)


def rate_vmdas(cx):
    """VMDAS and WinRiver decide themselves when ensembles are taken"""
    def extra(t):
        return [vmdas_block(cx, t, 10. * t)[0]]
    raw, want = data(cx, 3, 1, ['vel'], extra, coord=0x18)
    cx.close('sampling rate', rdi.read_rdi(cx.file(raw)).attrs['fs'], 1.0, 1e-6)


def harnesses(tier):
    h = [whole(3, api.read), whole(0, rdi.read_rdi), whole(1, api.read), whole(2, rdi.read_rdi),
         Harness('declination', declination, bounds='declination in file and/or user data, any velocity'),
         Harness('gps_times', gps_times, bounds='4 ensembles, 4 patterns of repeated positions'),
         Harness('gps_missing', gps_missing, bounds='4 ensembles, 5 patterns of missing, repeated and unordered positions'),
         Harness('winriver1', winriver1, bounds='3 ensembles, any position'),
         messages('empty', False), messages('empty', True), messages('garbled', False), messages('garbled', True),
         Harness('rate', rate, bounds='4 ping settings, any velocity'), Harness('rate_vmdas', rate_vmdas, bounds='3 ensembles a second apart'),
         Harness('sounder', sounder, bounds='3 ensembles, 2 positions')]
    return h
