"""TRDI PD0 ensembles (Workhorse command manual, output data format)."""
import struct
from checks.wire import Rec

SYNC = (0x7f,)     # the reader looks for this byte to find ensembles


def rdi_file(cx, ensembles, tail=b'', lead=b''):
    """ensembles: lists of (id, Rec-or-bytes) blocks; the reader needs the
    header of the following ensemble, so a bare one is appended"""
    parts = [lead]
    for e in ensembles:
        parts.append(pd0(cx, e))
    parts.append(tail)
    return cx.mkbytes(parts)


def pd0(cx, blocks, cksum=b'\x00\x00'):
    n = len(blocks)
    off = 6 + 2 * n
    offs, body = [], []
    for b in blocks:
        offs.append(off)
        bs = list(b.b) if isinstance(b, Rec) else list(b)
        off += len(bs)
        body += bs
    nb = off + 2          # two reserved bytes close the data
    head = struct.pack('<BBHBB', 0x7f, 0x7f, nb, 0, n) + struct.pack('<%dH' % n, *offs)
    return cx.mkbytes([head, body, b'\x00\x00', cksum])


def fixed(cx, ncells, pre='fix', ver=(16, 28), sym=False, sysconf=(0xcb, 0x41), coord=0x1f, id=0, cell=200, blank=100, bin1=300, pings=5, tpg=(0, 1, 0), heading_bias=(0, 0)):
    """fixed leader; -> Rec, expected values"""
    r = Rec(cx, pre, SYNC)
    x = {}
    v = ver[0] + ver[1] / 100.
    r.pack('HBBBBB', id, ver[0], ver[1], sysconf[0], sysconf[1], 0)
    if sym:
        r.u8('lag')
    else:
        r.zeros(1)
    r.pack('BB', 4, ncells)
    s16 = (lambda nm, d: r.u16(nm)) if sym else (lambda nm, d: (r.pack('H', d), d)[1])
    s8 = (lambda nm, d: r.u8(nm)) if sym else (lambda nm, d: (r.pack('B', d), d)[1])
    i16 = (lambda nm, d: r.i16(nm)) if sym else (lambda nm, d: (r.pack('h', d), d)[1])
    x['pings_per_ensemble'] = s16('pings', pings)
    x['cell_size'] = s16('cell', cell) * .01
    x['blank_dist'] = s16('blank', blank) * .01
    x['profiling_mode'] = s8('mode', 1)
    x['min_corr_threshold'] = s8('lowcorr', 64)
    x['n_code_reps'] = s8('reps', 9)
    x['min_prcnt_gd'] = s8('gdmin', 0)
    x['max_error_vel'] = s16('evmax', 2000) * .001
    m, sec, hun = s8('tpp_m', tpg[0]), s8('tpp_s', tpg[1]), s8('tpp_h', tpg[2])
    x['sec_between_ping_groups'] = m * 60 + sec + hun * .01
    r.pack('B', coord)
    x['heading_misalign_deg'] = i16('misalign', heading_bias[0]) * .01
    x['magnetic_var_deg'] = i16('magvar', heading_bias[1]) * .01
    r.pack('BB', 0x7d, 0x3d)
    x['bin1_dist_m'] = s16('bin1', bin1) * .01
    x['transmit_pulse_m'] = s16('pulse', 205) * .01
    x['water_ref_cells'] = [s8('wp0', 1), s8('wp1', 5)]
    x['false_target_threshold'] = s8('fls', 50)
    s8('spare', 0)
    x['transmit_lag_m'] = s16('lagdist', 34) * .01
    if v >= 8.14:
        for i in range(8):
            s8('cpu%d' % i, i)
    if v >= 8.24:
        x['bandwidth'] = s16('bw', 0)
    if v >= 16.05:
        x['power_level'] = s8('power', 255)
    if v >= 16.27:
        s8('basefreq', 0)
        x['serialnum'] = r.u32('serial') if sym else (r.pack('I', 1234), 1234)[1]
        x['beam_angle'] = s8('beamang', 20)
    return r, x


def var(cx, pre, num=1, clock=(20, 1, 2, 3, 4, 5, 6), cent=20, ver=(16, 28), sym=False, id=0x80, model='workhorse'):
    r = Rec(cx, pre, SYNC)
    x = {}
    v = ver[0] + ver[1] / 100.
    s16 = (lambda nm, d: r.u16(nm)) if sym else (lambda nm, d: (r.pack('H', d), d)[1])
    s8 = (lambda nm, d: r.u8(nm)) if sym else (lambda nm, d: (r.pack('B', d), d)[1])
    i16 = (lambda nm, d: r.i16(nm)) if sym else (lambda nm, d: (r.pack('h', d), d)[1])
    u32 = (lambda nm, d: r.u32(nm)) if sym else (lambda nm, d: (r.pack('I', d), d)[1])
    r.pack('H', id)
    lo = s16('num', num % 65536)
    r.pack('7B', *clock)
    x['number'] = lo + s8('nummsb', num // 65536) * 65536
    s16('bit', 0)
    x['c_sound'] = s16('ssp', 1500)
    x['depth'] = s16('depth', 100) * .1
    x['heading'] = s16('heading', 4500) * .01
    x['pitch'] = i16('pitch', 150) * .01
    x['roll'] = i16('roll', -250) * .01
    x['salinity'] = i16('salinity', 35)
    x['temp'] = i16('temp', 1050) * .01
    m, sec, hun = s8('mpt_m', 0), s8('mpt_s', 0), s8('mpt_h', 50)
    x['min_preping_wait'] = m * 60 + sec + hun * .01
    x['heading_std'] = s8('hsd', 1)
    x['pitch_std'] = s8('psd', 2) * .1
    x['roll_std'] = s8('rsd', 3) * .1
    for i in range(8):
        s8('adc%d' % i, 10 + i)
    if model == 'broadband':
        if v >= 5.55:
            for i in range(15):
                s8('bb%d' % i, 0)
            r.pack('8B', cent, *clock)
        return r, x
    if model == 'ocean surveyor':
        r.zeros(16 + (2 if v > 23 else 0))
        return r, x
    r.zeros(4)
    if v >= 8.13:
        s16('spare', 0)
        x['pressure'] = u32('pressure', 100000) * .001
        x['pressure_std'] = u32('pressure_std', 10) * .001
    if v >= 8.24:
        s8('spare2', 0)
    if v >= 16.05:
        r.pack('8B', cent, *clock)
    if v >= 56:
        s8('lag_near_bt', 0)
    return r, x


def cells16(cx, pre, id, ncells, nb=4):
    r = Rec(cx, pre, SYNC).pack('H', id)
    return r, [[r.i16('%d_%d' % (i, j)) for j in range(nb)] for i in range(ncells)]


def cells8(cx, pre, id, ncells, nb=4):
    r = Rec(cx, pre, SYNC).pack('H', id)
    return r, [[r.u8('%d_%d' % (i, j)) for j in range(nb)] for i in range(ncells)]
