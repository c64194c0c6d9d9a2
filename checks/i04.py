"""I04: TRDI bottom track, altimeter and navigation blocks."""
import datetime
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import rdiwire as W
from checks.i01 import load, blocks, compare
from checks.wire import Rec

CF = 180 / 2 ** 31
BAM = 180 / 2 ** 15


def epoch(*a):
    return (datetime.datetime(*a) - datetime.datetime(1970, 1, 1)).total_seconds()


def run(cx, extra, ver=(16, 28), n=1, nc=1, **kw):
    """n ensembles with the blocks extra(t) -> (Recs, what) before and after
    the velocities"""
    ens, want = [], []
    for t in range(n):
        fx, _ = W.fixed(cx, nc, 'f%d' % t, ver=ver)
        v, _ = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0), ver=ver)
        bl, al = blocks(cx, t, nc, ['vel']), blocks(cx, t, nc, ['amp'])
        rs, w = extra(t)
        want.append((bl + al, w))
        ens.append([fx, v, bl[0][1]] + rs + [al[0][1]])
    tail = W.pd0(cx, [W.fixed(cx, nc, 'ft', ver=ver)[0], W.var(cx, 'vt', ver=ver)[0]])
    dat, bb = load(cx, W.rdi_file(cx, ens, tail=tail), **kw)
    dv = dat['data_vars']
    cx.check('ensembles', dv['vel'].shape[-1] == n)
    for t in range(n):
        for nm, r, e in want[t][0]:
            compare(cx, dv, nm, e, t)
    return dat, [w[1] for w in want]


def bottom_block(cx, t, ver, wr=False):
    r = Rec(cx, 'bt%d' % t, W.SYNC).pack('H', 1536)
    x = {}
    r.skip('a', 2)
    lo = r.u16('b')
    r.skip('c', 6)
    lat = r.i32('lat')
    x['dist'] = r.many('u16', 'rng', 4)
    x['vel'] = r.many('i16', 'vel', 4)
    for k in ('corr', 'amp', 'prcnt_gd'):
        x[k] = r.many('u8', k, 4)
    r.skip('d', 2)
    hi = r.u16('e')
    r.skip('g', 16)
    qual = r.u8('qual')
    r.skip('h', 5)
    if ver >= (5, 30):
        r.skip('i', 7)
        msb = r.many('u8', 'msb', 4)
        x['dist'] = [a + b * 65536 for a, b in zip(x['dist'], msb)]
    if ver >= (16, 20) and not wr:
        r.skip('j', 4)
    if ver >= (56, 10):
        r.skip('k', 4)
    x['gps'] = (lat, lo + hi * 65536, qual)
    return r, x


def bottom(ver, n=2):
    def f(cx):
        def extra(t):
            r, x = bottom_block(cx, t, ver)
            return [r], x
        dat, want = run(cx, extra, ver, n)
        dv = dat['data_vars']
        cx.check('rotated with the rest', dat['attrs']['rotate_vars'] == ['vel', 'vel_bt'])
        for t in range(n):
            for b in range(4):
                cx.close('distance', dv['dist_bt'][b, t], want[t]['dist'][b] * .01, 1e-3, rel=1e-6)
                w = want[t]['vel'][b]
                cx.close('velocity', dv['vel_bt'][b, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)
                for k in ('corr', 'amp', 'prcnt_gd'):
                    cx.close(k, dv[k + '_bt'][b, t], want[t][k][b], 0)
    return Harness('bottom_%d_%02d' % ver, f, bounds='%d ensembles, firmware %d.%02d, any block bytes but 7f' % ((n,) + ver))


def bottom_gps(cx):
    """WinRiver puts the position into the bottom-track block"""
    def extra(t):
        nav = Rec(cx, 'n%d' % t).pack('HH', 8449, 12).raw(b'$GPGGA,12\x00')
        r, x = bottom_block(cx, t, (16, 28), wr=True)
        lat, lon, q = x['gps']
        for v in (lat, lon, q):
            cx.assume(v != 0)
        if t == 1:
            cx.assume(lon * CF > 180.001)
        else:
            cx.assume(lon * CF < 180)
        return [nav, r], x
    dat, want = run(cx, extra, n=2)
    dv = dat['data_vars']
    for t in range(2):
        for b in range(4):
            cx.close('distance', dv['dist_bt'][b, t], want[t]['dist'][b] * .01, 1e-3, rel=1e-6)
        lat, lon, q = want[t]['gps']
        cx.close('latitude', dv['latitude_gps'][t], lat * CF, 2e-5, rel=1e-7)
        cx.close('longitude', dv['longitude_gps'][t], lon * CF - 360 * t, 5e-5, rel=1e-7)


def bottom_nofix(cx):
    """a WinRiver block without a fix gives no position"""
    def extra(t):
        nav = Rec(cx, 'n%d' % t).pack('HH', 8449, 12).raw(b'$GPGGA,12\x00')
        r, x = bottom_block(cx, t, (16, 28), wr=True)
        lat, lon, q = x['gps']
        if t == 0:
            cx.assume(q == 0)
        elif t == 1:
            cx.assume(lat == 0)
        elif t == 2:
            cx.assume(lon == 0)
        if t:
            cx.assume(q != 0)
        if t != 1:
            cx.assume(lat != 0)
        if t != 2:
            cx.assume(lon != 0)
            cx.assume(lon * CF < 179.999)
        return [nav, r], x
    dat, want = run(cx, extra, n=3)
    dv = dat['data_vars']
    for t in range(3):
        lat, lon, q = want[t]['gps']
        nan = [cx.isnan(dv['latitude_gps'][t]), cx.isnan(dv['longitude_gps'][t])]
        if t in (0, 1):
            cx.check('no latitude', nan[0])
        else:
            cx.close('latitude', dv['latitude_gps'][t], lat * CF, 2e-5, rel=1e-7)
        if t in (0, 2):
            cx.check('no longitude', nan[1])
        else:
            cx.close('longitude', dv['longitude_gps'][t], lon * CF, 5e-5, rel=1e-7)
        for b in range(4):
            w = want[t]['vel'][b]
            cx.close('velocity all the same', dv['vel_bt'][b, t], cx.ite(w == -32768, float('nan'), w * .001), 1e-5)


def altimeter(cx):
    def extra(t):
        r = Rec(cx, 'alt%d' % t, W.SYNC).pack('H', 16640)
        return [r], dict(alt_eval=r.u8('eval'), alt_rssi=r.u8('rssi'), alt_dist=r.u32('dist') * .001, alt_status=r.u8('status'))
    dat, want = run(cx, extra, ver=(47, 12), n=2)
    for t in range(2):
        for nm, w in want[t].items():
            cx.close(nm, dat['data_vars'][nm][t], w, 1e-3, rel=1e-6)


def vmdas_block(cx, t, sec):
    r = Rec(cx, 'vm%d' % t, W.SYNC).pack('HBBH', 8192, 2, 3, 2020)
    x = {}
    r.zeros(4)
    x['clock_offset_UTC_gps'] = r.i32('off') * .001
    r.skip('first_pos', 8)
    r.pack('I', int(sec * 10000))
    x['latitude_gps'], x['longitude_gps'] = r.i32('lat') * CF, r.i32('lon') * CF
    x['avg_speed_gps'], x['avg_dir_gps'] = r.u16('spd') * .001, r.u16('dir') * BAM
    r.skip('mag', 2)
    x['speed_made_good_gps'], x['dir_made_good_gps'] = r.u16('smg') * .001, r.u16('dmg') * BAM
    r.skip('res', 2)
    r.pack('H', 5)
    r.skip('res2', 6)
    r.pack('HBB', 2020, 2, 3)
    r.zeros(4)
    p, o = r.u16('pitch') * BAM, r.u16('roll') * BAM
    x['heading_gps'] = r.u16('heading') * BAM
    r.skip('res3', 10)
    return r, x, (p, o)


def vmdas(cx):
    secs = [pick(cx, 'sec', 0, 3) * 28799.5, 86399.123]

    def extra(t):
        r, x, po = vmdas_block(cx, t, secs[t])
        return [r], (x, po)
    dat, want = run(cx, extra, n=2)
    dv = dat['data_vars']
    cx.check('program', dat['attrs']['sourceprog'] == 'VMDAS')
    for t in range(2):
        x, (p, o) = want[t]
        cx.check('gps time', abs(float(dat['coords']['time_gps'][t]) - epoch(2020, 3, 2) - int(secs[t] * 1000) / 1000) < 2e-3)
        for nm, w in x.items():
            cx.close(nm, dv[nm][t], w, 3e-5 if 'tude' in nm else 1e-3, rel=1e-6)
        for nm, w in (('pitch_gps', p), ('roll_gps', o)):
            d = dv[nm][t] - w
            # the sign convention of angles beyond 180 degrees is left open
            cx.check(nm, cx.any([cx.all([d > -1e-3, d < 1e-3]), cx.all([d > -360.001, d < -359.999])]))


def vmdas_misplaced(cx):
    """the navigation block is found at the end of the ensemble when the
    header does not list it"""
    n = 2
    ens, want = [], []
    for t in range(n):
        fx, _ = W.fixed(cx, 1, 'f%d' % t)
        v, _ = W.var(cx, 'v%d' % t, num=t + 1, clock=(20, 1, 2, 3, 4, 5 + t, 0))
        bl = blocks(cx, t, 1, ['vel'])
        r, x, po = vmdas_block(cx, t, 100. * t)
        want.append((bl, x))
        e = W.pd0(cx, [fx, v, list(bl[0][1].b) + list(r.b) + [0] * 14])
        ens.append(e)
    # the block of the last ensemble before the final header is not found
    ens += 2 * [W.pd0(cx, [fx, v, b'\x00\x01' + bytes(100)])]
    dat, bb = load(cx, cx.mkbytes(ens), vmdas_search=True)
    dv = dat['data_vars']
    cx.check('ensembles', dv['vel'].shape[-1] == n + 1)
    for t in range(n):
        compare(cx, dv, 'vel', want[t][0][0][2], t)
        for nm in ('latitude_gps', 'heading_gps'):
            cx.close(nm, dv[nm][t], want[t][1][nm], 3e-5 if 'tude' in nm else 1e-3, rel=1e-6)


def nmea(cx, t, spid, sz):
    return Rec(cx, 'nm%d_%d' % (t, spid), W.SYNC).pack('HHHd', 8226, spid, sz, 0.25)


def winriver2(old):
    """the four NMEA messages, each with its own fields"""
    def f(cx):
        o = 100 if old else 0
        hh = pick(cx, 'hour', 0, 2) * 11

        def extra(t):
            s = lambda nm: 1 if not pick(cx, '%s%d' % (nm, t), 0, 1) else -1
            g = nmea(cx, t, 4 + o, 57).raw(b'$GPGGA,', b'%02d3456.%02d,' % (hh, 25 * t))
            ns, ew = (1, 1) if t else (s('ns'), s('ew'))
            x = {}
            x['latitude_gps'] = g.f64('lat') * ns
            g.raw(b'N' if ns > 0 else b'S')
            x['longitude_gps'] = g.f64('lon') * ew
            g.raw(b'E' if ew > 0 else b'W')
            x['fix_gps'] = g.u8('fix')
            x['n_sat_gps'] = g.u8('sat')
            cx.assume(x['fix_gps'] < 128)
            cx.assume(x['n_sat_gps'] < 128)
            x['hdop_gps'] = g.f32('hdop')
            x['elevation_gps'] = g.f32('elev')
            g.raw(b'M')
            g.f32('geoid')
            g.raw(b'M')
            x['rtk_age_gps'] = g.f32('age')
            g.pack('H', 7)
            v = nmea(cx, t, 5 + o, 28).raw(b'$GPVTG,')
            x['dir_over_grnd_gps'] = v.f32('true')
            v.raw(b'T')
            v.f32('magn')
            v.raw(b'M')
            x['speed_over_grnd_gps'] = v.f32('knots') / 1.944
            v.raw(b'N')
            v.f32('kph')
            v.raw(b'KA')
            d = nmea(cx, t, 6 + o, 22).raw(b'$SDDBT,')
            d.f32('ft')
            d.raw(b'f')
            x['dist_nmea'] = d.f32('m')
            d.raw(b'm')
            d.f32('fa')
            d.raw(b'F')
            h = nmea(cx, t, 7 + o, 16).raw(b'$GPHDT,')
            x['heading_gps'] = h.f64('hdt')
            h.raw(b'T')
            return [g, v, d, h], x
        dat, want = run(cx, extra, n=2)
        dv = dat['data_vars']
        cx.check('program', dat['attrs']['sourceprog'] == 'WinRiver2')
        for t in range(2):
            cx.check('gps time', abs(float(dat['coords']['time_gps'][t]) - epoch(2020, 1, 2, hh, 34, 56) - .25 * t) < 1e-3)
            for nm, w in want[t].items():
                far = not cx.sym and not abs(w) < 1e30      # beyond single precision
                cx.close(nm, 0 if far else dv[nm][t], 0 if far else w, 1e-3, rel=1e-6)
    return Harness('winriver2_%s' % ('old' if old else 'new'), f, bounds='2 ensembles, any field values, hemispheres, 3 times of day')


def winriver2_empty(cx):
    """messages without a fix, or not understood, do not disturb the data"""
    k = pick(cx, 'which', 0, 5)
    spid, sz = [(4, 43), (5, 22), (6, 20), (7, 14), (1, 12), (110, 31)][k]

    def extra(t):
        r = nmea(cx, t, spid, sz).raw(b'$GPXXX' + b',' * (sz - 6))
        return [r], None
    run(cx, extra, n=2)


def harnesses(tier):
    h = [bottom((16, 28)), bottom((8, 35)), bottom((5, 20)), bottom((56, 20)),
         Harness('bottom_gps', bottom_gps, bounds='2 WinRiver ensembles, any position'),
         Harness('bottom_nofix', bottom_nofix, bounds='3 WinRiver ensembles without a fix, without latitude, without longitude'),
         Harness('altimeter', altimeter, bounds='2 ensembles, any block bytes but 7f'),
         Harness('vmdas', vmdas, bounds='2 ensembles, any block bytes but 7f, 4 times'),
         Harness('vmdas_misplaced', vmdas_misplaced, bounds='2 ensembles'),
         winriver2(False), winriver2(True), Harness('winriver2_empty', winriver2_empty, bounds='6 messages')]
    h += [bottom((v, 40), 4) for v in (10, 23, 31, 50, 77)] + [bottom((5, 30)), bottom((16, 20)), bottom((56, 10))]
    if tier == 'thorough':
        h += [bottom((v, 1), 9) for v in (5, 8, 16, 56)]
    return h
