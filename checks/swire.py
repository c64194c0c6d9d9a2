"""Nortek Signature (AD2CP) records: sync a5, header size, id, family, data
size, data and header checksums, then the record (Integrators Guide, DF3)."""
import struct
from checks.wire import Rec, bits

G = 9.81
FLAG = dict(vel=1 << 5, amp=1 << 6, corr=1 << 7, le=1 << 8, altraw=1 << 9, ast=1 << 10,
            echo=1 << 11, ahrs=1 << 12, p_gd=1 << 13, std=1 << 14)
BTFLAG = dict(vel=1 << 5, dist=1 << 8, fom=1 << 9, ahrs=1 << 10)
CY = dict(ENU=0, XYZ=1, beam=2)


def frame(cx, id, body, pre='h', cs=None):
    """record with its header"""
    h = Rec(cx, pre)
    n = len(body.b) if hasattr(body, 'b') else len(body)
    h.pack('BBBBH', 0xa5, 10, id, 0x10, n)
    if cs is None:
        h.pack('HH', 0, 0)
    else:
        h.skip(cs, 4)
    return h.raw(body)


CFG = '''ID,STR="Signature1000",SN=101010
BEAMCFGLIST,BEAM=1,THETA=%(theta)02d.00,PHI=0.00,FREQ=1000,BW=25,BRST=1
BEAMCFGLIST,BEAM=2,THETA=%(theta)02d.00,PHI=-90.00,FREQ=1000,BW=25,BRST=1
BEAMCFGLIST,BEAM=3,THETA=%(theta)02d.00,PHI=180.00,FREQ=1000,BW=25,BRST=1
BEAMCFGLIST,BEAM=4,THETA=%(theta)02d.00,PHI=90.00,FREQ=1000,BW=25,BRST=1
GETPLAN,MIAVG=%(miavg)d,AVG=1,DIAVG=0
GETAVG,NC=20,CS=1.00,BD=0.50,AI=%(ai)d,BW="BROAD"
GETBURST,NC=20,NB=4,CS=0.50,SR=%(sr)s
GETXFAVG,ROWS=%(n)d,COLS=%(n)d,%(xf)s
GETXFBURST,ROWS=%(n)d,COLS=%(n)d,%(xf)s'''

XF4 = [[1.1831, 0, -1.1831, 0], [0, 1.1831, 0, -1.1831], [.5518, 0, .5518, 0], [0, .5518, 0, .5518]]


def config(cx, sr='4', xf=XF4, theta=25, miavg=600, ai=60):
    s = CFG % dict(sr=sr, n=len(xf), theta=theta, miavg=miavg, ai=ai,
                   xf=','.join('M%d%d=%.4f' % (i + 1, j + 1, v) for i, r in enumerate(xf) for j, v in enumerate(r)))
    body = b'\x10' + s.replace('\n', '\r\n').encode() + b'\0'
    return frame(cx, 160, Rec(cx, 'cfg').raw(body))


def status(orient=4, wake=2, auto=1, extra=0):
    return wake << 28 | orient << 25 | auto << 22 | 1 << 1 | extra


def head(cx, r, x, id, when, cfg, beams, ens, serial=101010, cell=500, blank=20, nomcorr=50,
         vscale=-3, power=-4, st=None, status0=0x8000, ambig=1234, sym=True, only=None, ver=3, give=None):
    """the common part; sym: every measured field of any value"""
    def f(kind, nm, d):
        fmt = {'u8': 'B', 'u16': 'H', 'i16': 'h', 'u32': 'I', 'i32': 'i', 'i8': 'b'}[kind]
        if give and nm in give:
            v = give[nm]                  # a given 16-bit count (may be symbolic)
            u = v + cx.ite(v < 0, 65536, 0)
            hi = cx.floor(u / 256.)
            r.raw(u - hi * 256, hi)
        elif sym and (only is None or nm in only):
            v = getattr(r, kind)(nm)
        else:
            r.pack(fmt, d)
            v = d
        return v
    bt = id == 23
    y, mo, d, h, mi, s, us = when
    r.pack('BBHI', ver, 78 if bt else 76, cfg, serial)
    r.pack('6BH', y - 1900, mo - 1, d, h, mi, s, us)
    x['c_sound'] = f('u16', 'c', 15000) * .1
    x['temp'] = f('i16', 't', 1234) * .01
    x['pressure'] = f('u32', 'p', 12345) * .001
    x['heading'] = f('u16', 'hd', 4500) * .01
    x['pitch'] = f('i16', 'pt', 100) * .01
    x['roll'] = f('i16', 'rl', -100) * .01
    r.pack('HHHB', beams, cell, blank, nomcorr)
    tp = f('u8', 'tp', 150)
    if not bt:
        x['temp_press'] = tp * .2 - 4
    x['batt'] = f('u16', 'bat', 120) * .1
    x['mag'] = [f('i16', 'mag%d' % i, 100 * i) * .1 for i in range(3)]
    x['accel'] = [f('i16', 'acc%d' % i, 100 * i) * (G / 16384) for i in range(3)]
    r.pack('I' if bt else 'h', ambig)
    r.pack('H', 0)
    x['xmit_energy'] = f('u16', 'xm', 77)
    r.pack('bb', vscale, power)
    f('i16', 'tm', 3)
    x['temp_clock'] = f('i16', 'tc', 2500) * .01
    x['error'] = f('u32' if bt else 'u16', 'err', 0)
    if not bt:
        r.pack('H', status0)
    r.pack('I', status() if st is None else st)
    r.pack('I', ens)
    assert len(r.b) == (78 if bt else 76)


def ahrs(r, x, sym=True):
    def f(nm, d):
        if sym:
            return r.f32(nm)
        r.pack('f', d)
        return struct.unpack('<f', struct.pack('<f', d))[0]
    x['mat'] = [f('om%d' % i, float(i % 4 == 0)) for i in range(9)]
    x['quaternions'] = [f('q%d' % i, float(i == 0)) for i in range(4)]
    x['angrt'] = [f('w%d' % i, .5 * i) * 3.141592653589793 / 180 for i in range(3)]


def burst(cx, pre, id=21, nb=4, nc=2, cy='beam', ens=1, when=(2020, 2, 29, 23, 59, 58, 0), flags=('vel', 'amp', 'corr'),
          sym=True, hsym=None, dsym=None, cs=None, beams=None, nalt=3, vscale=-3, status_alt=None, **kw):
    """burst / average / fifth-beam record -> record, values"""
    hsym = sym if hsym is None else hsym
    dsym = sym if dsym is None else dsym
    r, x = Rec(cx, pre), {}
    cfg = 0x0f
    for k in flags:
        cfg |= FLAG[k]
    head(cx, r, x, id, when, cfg, nc | CY[cy] << 10 | nb << 12 if beams is None else beams, ens, sym=hsym, vscale=vscale, **kw)

    def f(kind, nm, d):
        if dsym:
            return getattr(r, kind)(nm)
        r.pack({'u8': 'B', 'u16': 'H', 'i16': 'h', 'u32': 'I', 'f32': 'f'}[kind], d)
        return d
    if 'vel' in flags:
        x['vel'] = [[f('i16', 'v%d_%d' % (b, c), 10 * b + c) * 10. ** vscale for c in range(nc)] for b in range(nb)]
    if 'amp' in flags:
        x['amp'] = [[f('u8', 'a%d_%d' % (b, c), 10 * b + c) * .5 for c in range(nc)] for b in range(nb)]
    if 'corr' in flags:
        x['corr'] = [[f('u8', 'c%d_%d' % (b, c), 10 * b + c) for c in range(nc)] for b in range(nb)]
    if 'le' in flags:
        x['le_dist_alt'] = f('f32', 'led', 2.5)
        x['le_quality_alt'] = f('u16', 'leq', 5) * .01
        x['status_alt'] = f('u16', 'les', 1) if status_alt is None else (r.pack('H', status_alt), status_alt)[1]
    if 'ast' in flags:
        x['ast_dist_alt'] = f('f32', 'asd', 2.5)
        x['ast_quality_alt'] = f('u16', 'asq', 5) * .01
        x['ast_offset_time_alt'] = f('i16', 'ast', -5) * 1e-4
        x['pressure_alt'] = f('f32', 'asp', 12.5)
        r.zeros(8)
    if 'altraw' in flags:
        r.pack('I', nalt)
        x['nsamp_alt'] = nalt
        x['dsamp_alt'] = f('u16', 'dsa', 10) * 1e-4
        x['samp_alt'] = [f('i16', 'alt%d' % i, 256 * i - 256) / 256. for i in range(nalt)]
    if 'ahrs' in flags:
        ahrs(r, x, dsym)
    if 'p_gd' in flags:
        x['prcnt_gd'] = [f('u8', 'pg%d' % i, 90 + i) for i in range(nc)]
    if 'std' in flags:
        x['pitch_std'] = f('i16', 'ps', 5) * .01
        x['roll_std'] = f('i16', 'rs', 6) * .01
        x['heading_std'] = f('i16', 'hs', 7) * .01
        x['press_std'] = f('i16', 'prs', 8) * .1
        r.zeros(24)
    return frame(cx, id, r, pre + 'h', cs), x


def bt(cx, pre, nb=4, cy='beam', ens=1, when=(2020, 2, 29, 23, 59, 58, 0), flags=('vel', 'dist', 'fom'), sym=True,
       hsym=None, dsym=None, vscale=-3, **kw):
    hsym = sym if hsym is None else hsym
    dsym = sym if dsym is None else dsym
    r, x = Rec(cx, pre), {}
    cfg = 0x0f
    for k in flags:
        cfg |= BTFLAG[k]
    head(cx, r, x, 23, when, cfg, CY[cy] << 10 | nb << 12, ens, sym=hsym, vscale=vscale, ver=1, **kw)

    def f(kind, nm, d):
        if dsym:
            return getattr(r, kind)(nm)
        r.pack({'u16': 'H', 'i32': 'i'}[kind], d)
        return d
    if 'vel' in flags:
        x['vel'] = [f('i32', 'v%d' % b, 100 * b) * 10. ** vscale for b in range(nb)]
    if 'dist' in flags:
        x['dist'] = [f('i32', 'd%d' % b, 1000 * b) * .001 for b in range(nb)]
    if 'fom' in flags:
        x['fom'] = [f('u16', 'f%d' % b, b) for b in range(nb)]
    if 'ahrs' in flags:
        ahrs(r, x, dsym)
    return frame(cx, 23, r, pre + 'h'), x


def echo(cx, pre, nc=3, ens=1, when=(2020, 2, 29, 23, 59, 58, 0), sym=True, hsym=None, dsym=None, flags=('echo',), **kw):
    hsym = sym if hsym is None else hsym
    dsym = sym if dsym is None else dsym
    r, x = Rec(cx, pre), {}
    cfg = 0x0f
    for k in flags:
        cfg |= FLAG[k]
    kw.setdefault('cell', 6)
    kw.setdefault('blank', 500)
    head(cx, r, x, 28, when, cfg, nc, ens, sym=hsym, **kw)
    if dsym:
        x['echo'] = [r.u16('e%d' % i) * .01 for i in range(nc)]
    else:
        x['echo'] = [(r.pack('H', 100 * i), i * 1.)[1] for i in range(nc)]
    if 'ahrs' in flags:
        ahrs(r, x, dsym)
    return frame(cx, 28, r, pre + 'h'), x
