"""I08: classic Nortek configuration, framing, checksums, clocks; Vectrino."""
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import nwire as W
from checks import i06, i07
from checks.i06 import load, t0, epoch
from dolfyn.io import nortek


def reader(cx, recs, sums=False, **kw):
    p = cx.file(cx.mkbytes([r.b if hasattr(r, 'b') else r for r in recs]), name='data.vec')
    return nortek._NortekReader(p, do_checksum=sums, **kw)


def vector(cx, n=2, cfg=None, sym=True):
    recs, xd = cfg or W.head3(cx), []
    for i in range(n):
        recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
        r, x = W.vec_data(cx, 'd%d' % i, sym=sym)
        recs.append(r)
        xd.append(x)
    return recs, xd


FIELDS = ('T1', 'blank', 'T3', 'T4', 'T5', 'NPings', 'A1', 'B0', 'B1', 'update', 'nbins', 'binlen', 'interval', 'sndadj',
          'nsdiag', 'nbcdiag', 'npdiag', 'anain', 'salinity', 'wT1', 'wT2', 'wT3', 'nsamp', 'aoutscale', 'corrthr', 'tilag2')


def numbers(cx):
    """every number of the user configuration is where the user finds it"""
    u, v = W.user(cx, sym=FIELDS)
    recs, xd = vector(cx, 1, [W.hw(cx), W.head(cx), u], sym=False)
    r = reader(cx, recs)
    c, a = r.config, r.data['attrs']
    r.close()
    for nm, got in [('T1', c['transmit_pulse_length_m']), ('blank', c['blank_dist']), ('T3', c['receive_length_m']),
                    ('T4', c['time_between_pings']), ('T5', c['time_between_bursts']), ('NPings', a['n_pings_per_burst']),
                    ('A1', c['A1']), ('B0', c['B0']), ('B1', c['B1']), ('update', a['compass_update_rate']), ('nbins', a['n_bins']),
                    ('binlen', c['bin_length']), ('interval', c['burst_interval']), ('sndadj', c['user_soundspeed_adj_factor']),
                    ('nsdiag', c['n_samples_diag']), ('nbcdiag', c['n_beams_cells_diag']), ('npdiag', c['n_pings_diag_wave']),
                    ('anain', a['analog_in']), ('wT1', c['wave_transmit_pulse']), ('wT2', c['wave_blank_dist']),
                    ('wT3', c['awac']['wave_cell_size']), ('nsamp', c['awac']['n_samples_wave']), ('aoutscale', c['analog_out_scale']),
                    ('corrthr', c['corr_thresh']), ('tilag2', c['transmit_pulse_lag2'])]:
        cx.close(nm, got, v[nm], 0)
    cx.close('salinity', a['salinity'], v['salinity'] * .1, 1e-6)
    cx.check('tables', list(c['VelAdjTable']) == list(range(90)) and list(c['QualConst']) == list(range(8)))
    cx.check('text', a['deployment_name'] == 'dep' and a['comments'] == 'hello' and a['software_version'] == '1.37.01')
    cx.check('hardware', a['serial_number'] == 'VEC 1234' and a['firmware_version'] == '3.37' and a['PIC_version'] == 3 and
             a['hardware_rev'] == 4 and a['recorder_size_bytes'] == 131072 and c['board_freq'] == 12000)


def flags(which):
    def f(cx):
        b = lambda nm: pick(cx, nm, 0, 1)
        kw, want, hk, hst = {}, {}, {}, 0
        if which == 'timing':
            p, m, lo, hi, s = b('prof'), b('mode'), b('lo'), b('hi'), b('sync')
            kw['tim'] = 2 * p | 4 * m | 32 * lo | 64 * hi | 128 * s
            want = {'profile_mode': ['single', 'continuous'][p], 'burst_mode': ['True', 'False'][m], 'power_level': lo + 2 * hi + 1,
                    'sync_out_pos': ['middle', 'end'][s], 'sample_on_sync': 'False', 'start_on_sync': 'False'}
        elif which == 'sync':
            p, m = b('sample'), b('start')
            kw['tim'] = 256 * p | 512 * m
            want = {'sample_on_sync': str(bool(p)), 'start_on_sync': str(bool(m)), 'profile_mode': 'single', 'burst_mode': 'True'}
        elif which == 'mode':
            bs = [b('m%d' % i) for i in range(5)]
            kw['mode'] = bs[0] | 4 * bs[1] | 8 * bs[2] | 32 * bs[3] | 256 * bs[4]
            T = lambda x: str(bool(x))
            want = {'user_specified_sound_speed': T(bs[0]), 'analog_output': T(bs[1]), 'output_format': ['Vector', 'ADV'][bs[2]],
                    'serial_output': T(bs[3]), 'power_output_analog': T(bs[4])}
        elif which == 'head':
            bs = [b('h%d' % i) for i in range(3)]
            hk['config'] = bs[0] | 2 * bs[1] | 4 * bs[2]
            hst, wr = b('range'), b('wrap')
            kw['wrap'] = wr
            y = ['no', 'yes']
            want = {'pressure_sensor': y[bs[0]], 'compass': y[bs[1]], 'tilt_sensor': y[bs[2]], 'vel_range': ['normal', 'high'][hst],
                    'wrap_mode': str(bool(wr))}
        elif which == 'coord':
            k = pick(cx, 'coord', 0, 2)
            kw['coord'] = k
            want = {'coord_sys': ['earth', 'inst', 'beam'][k]}
        recs, xd = vector(cx, 1, W.head3(cx, hwst=hst, headkw=hk, **kw), sym=False)
        r = reader(cx, recs)
        a = r.data['attrs']
        r.close()
        for nm, w in want.items():
            cx.check(nm, a[nm] == w)
        cx.check('model', a['inst_model'] == 'Vector' and a['inst_type'] == 'ADV' and a['inst_make'] == 'Nortek')
    return Harness('flags_' + which, f, bounds='every combination of the flags')


def rate(cx):
    """sampling rate of the Vector: 512 / averaging counts"""
    k = pick(cx, 'k', 0, 6)
    recs, xd = vector(cx, 1, W.head3(cx, avg=512 >> k), sym=False)
    r = reader(cx, recs)
    cx.check('rate', r.data['attrs']['fs'] == 1 << k)
    r.close()


def bcd(cx):
    """binary-coded decimal digits"""
    hi, lo = cx.int('hi', 0, 9), cx.int('lo', 0, 9)
    cx.close('digits', nortek._bcd2char(hi * 16 + lo), hi * 10 + lo, 0)


def clocks(which):
    def f(cx):
        y, mo, d, h, mi, s = 19, 12, 31, 23, 59, 58
        if which == 'year':
            y = pick(cx, 'y', 0, 99)
        if which == 'date':
            mo = pick(cx, 'mo', 1, 12)
            d = 1 + 27 * pick(cx, 'last', 0, 1)
        if which == 'hour':
            h = pick(cx, 'h', 0, 23)
        if which == 'minute':
            mi = pick(cx, 'mi', 0, 59)
        if which == 'second':
            s = pick(cx, 's', 0, 59)
        recs, xs, _ = i07.build(cx, 1, 1, clk=lambda i: (y, mo, d, h, mi, s))
        dat = i07.raw(cx, recs)
        yy = y + (1900 if y >= 90 else 2000)
        w = np.datetime64('%04d-%02d-%02dT%02d:%02d:%02d' % (yy, mo, d, h, mi, s))
        got = float(dat['coords']['time'][0])
        cx.check('instant', abs(got - (w - np.datetime64('1970-01-01T00:00:00')) / np.timedelta64(1, 's')) < 1e-3)
    return Harness('clock_' + which, f, bounds='every ' + which)


def sums(bad):
    """do_checksum: a data block is accepted exactly when its sum is right"""
    def f(cx):
        recs, xd = vector(cx, 2, sym=False)
        r, x = W.vec_data(cx, 'z', sym=True)
        if bad:
            r.b[-2:] = [cx.int('c0', 0, 255), cx.int('c1', 0, 255)]
            s = 0xb58c
            for i in range(0, len(r.b) - 2, 2):
                s = s + r.b[i] + 256 * r.b[i + 1]
            cx.assume(cx.not_(s - 65536 * cx.floor(s / 65536.) == r.b[-2] + 256 * r.b[-1]))
        else:
            r.b[-2:] = []
            W.close(cx, r)
        raised = False
        with reader(cx, recs + [r], sums=True) as rd:
            try:
                rd.readfile()
            except EOFError:
                raise
            except Exception as e:
                if 'hecksum' not in str(e).lower():
                    raise
                raised = True
            n = rd.c
        cx.check('detected' if bad else 'accepted', raised if bad else n == 3)
        if not bad:
            dv = rd.data['data_vars']
            for b in range(3):
                cx.close('vel', dv['vel'][b, 2], x['vel'][b] * 1000, 1e-6)
                cx.close('amp', dv['amp'][b, 2], x['amp'][b], 0)
    return Harness('checksum_' + ('bad' if bad else 'good'), f, bounds='one data block with any bytes' + (', any wrong sum' if bad else ''))


def garbage(k, where):
    """k words of junk between two records"""
    def f(cx):
        recs, xd = vector(cx, 3)
        j = W.Rec(cx, 'junk', W.SYNC)
        j.skip('g', 2 * k)
        pos = {'sys': 5, 'data': 6}[where]
        recs = recs[:pos] + [j] + recs[pos:]
        ds = load(cx, recs)
        cx.check('samples', ds['time'].shape == (3,))
        for i in range(3):
            i06.compare(cx, ds, xd, i, i)
    return Harness('garbage_%s_%d' % (where, k), f, bounds='3 samples, %d junk words without a5 before a %s record' % (k, where))


def unknown(cx):
    """well-formed records of an unknown kind are passed over"""
    recs, xd = vector(cx, 3)
    u = W.rec(cx, 'u', 0x21).zeros(2)
    u.pack('HH', 0x10a5, 7)            # looks like a data record inside
    u.skip('u', 4)
    W.done(cx, u, sym_sum=True)
    ds = load(cx, recs[:5] + [u] + recs[5:7] + [u] + recs[7:])
    cx.check('samples', ds['time'].shape == (3,))
    for i in range(3):
        i06.compare(cx, ds, xd, i, i)


def vectrino(cx):
    n, fs = 4, 1
    r0 = [W.hw(cx, b'VNO 1234'), W.head(cx, nbeams=4), W.user(cx, avg=50000, NBeams=4)[0]]
    recs, xs = r0 + [W.vno_event(cx, (20, 2, 28, 23, 59, 58)), W.vno_hdr(cx)], []
    for i in range(n):
        r, x = W.vno_data(cx, 'd%d' % i)
        recs.append(r)
        xs.append(x)
    ds = load(cx, recs)
    cx.check('samples', ds['vel'].shape == (4, n) and ds['time'].shape == (n,))
    cx.check('model', ds.attrs['inst_model'] == 'Vectrino' and ds.attrs['inst_type'] == 'ADV' and ds.attrs['fs'] == 1)
    for i in range(n):
        for b in range(4):
            cx.close('vel', ds['vel'].values[b, i], xs[i]['vel'][b], 2e-5, rel=1e-6)
            cx.close('amp', ds['amp'].values[b, i], xs[i]['amp'][b], 0)
            cx.close('corr', ds['corr'].values[b, i], xs[i]['corr'][b], 0)
        cx.close('status', ds['status'].values[i], xs[i]['status'], 0)
        w = epoch((20, 2, 28, 23, 59, 58)) + np.timedelta64(1000 * i // fs, 'ms')
        cx.check('time', abs((ds['time'].values[i] - w) / np.timedelta64(1, 'ms')) < 2)


def harnesses(tier):
    return [Harness('numbers', numbers, bounds='any 16-bit numbers'),
            flags('timing'), flags('sync'), flags('mode'), flags('head'), flags('coord'),
            Harness('rate', rate, bounds='1..64 Hz'),
            Harness('bcd', bcd, bounds='every pair of digits'),
            clocks('year'), clocks('date'), clocks('hour'), clocks('minute'), clocks('second'),
            sums(False), sums(True), garbage(1, 'sys'), garbage(3, 'sys'), garbage(2, 'data'),
            Harness('unknown', unknown, bounds='unknown records with any content but sync bytes'),
            Harness('vectrino', vectrino, bounds='4 samples, any bytes')]
