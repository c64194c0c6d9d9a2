"""Classic Nortek records (System Integrator Manual): a5, id, size in words,
data, checksum (b58c + the sum of the words before it, modulo 65536)."""
import struct
from checks.wire import Rec

SYNC = (0xa5,)


def csum(words):
    return (0xb58c + sum(words)) % 65536


def close(cx, r, bad=False):
    """append the checksum; symbolic bytes allowed"""
    assert len(r.b) % 2 == 0, len(r.b)
    if any(not isinstance(x, int) for x in r.b):
        s = 0xb58c
        for i in range(0, len(r.b), 2):
            s = s + r.b[i] + 256 * r.b[i + 1]
        hi = cx.floor(s / 65536.)
        s = s - hi * 65536
        b1 = cx.floor(s / 256.)
        r.raw(s - b1 * 256, b1)
    else:
        s = csum([r.b[i] + 256 * r.b[i + 1] for i in range(0, len(r.b), 2)])
        r.pack('H', s ^ (0x0101 if bad else 0))
    return r


def rec(cx, pre, id, avoid=SYNC):
    r = Rec(cx, pre, avoid)
    return r.pack('BB', 0xa5, id)


def done(cx, r, sized=True, sym_sum=False):
    """fill in the size and the checksum"""
    if sized:
        n = (len(r.b) + 2) // 2
        r.b[2], r.b[3] = n % 256, n // 256
    if sym_sum or not any(not isinstance(x, int) for x in r.b):
        return close(cx, r)
    return r.raw(0, 0)


def bcd(n):
    return (n // 10) << 4 | n % 10


def clock(y, mo, d, h, mi, s):
    return bytes([bcd(mi), bcd(s), bcd(d), bcd(h), bcd(y % 100), bcd(mo)])


def hw(cx, serial=b'VEC 1234', status=0, recsize=2, pre='hw', fields=None):
    r = rec(cx, pre, 5).zeros(2)
    f = fields or (lambda nm, d: (r.pack('H', d), d)[1])
    r.pack('8sB1x4s', serial, 9, b'1.20')
    r.pack('6H', 1, 12000, 3, 4, recsize, status)
    r.zeros(12).raw(b'3.37')
    return done(cx, r)


def head(cx, config=7, freq=1000, mat=None, nbeams=3, pre='hd'):
    """mat: list of raw 16-bit numbers (4096 = 1)"""
    r = rec(cx, pre, 4).zeros(2)
    r.pack('3H12s', config, freq, 0, b'HEAD 42')
    n = nbeams if nbeams == 4 else 3
    if mat is None:
        mat = [11185, -5592, -5593, 0, -9691, 9691, 1407, 1407, 1407] if n == 3 else [4096 * (i == j) for i in range(4) for j in range(4)]
    sysb = bytes(8) + struct.pack('<%dh' % len(mat), *mat)
    r.raw(sysb).zeros(176 - len(sysb))
    r.zeros(22).pack('H', nbeams)
    return done(cx, r)


def head_sym(cx, pre='hd', n=3, config=7, freq=1000):
    r = rec(cx, pre, 4).zeros(2)
    r.pack('3H12s', config, freq, 0, b'HEAD 42').zeros(8)
    m = [[r.i16('m%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    r.zeros(168 - 2 * n * n).zeros(22).pack('H', n)
    return done(cx, r), m


K0 = dict(T1=10, blank=20, T3=30, T4=40, T5=50, NPings=6, avg=512, NBeams=3, tim=0, pwr=0, A1=0, B0=0, B1=0, update=1,
          coord=1, nbins=0, binlen=256, interval=1, wrap=0, mode=0, sndadj=8, nsdiag=9, nbcdiag=10, npdiag=11, modetest=0,
          anain=0, swver=13701, salinity=355, wproc=4, wmode=0, dynperc=0, wT1=1, wT2=2, wT3=3, nsamp=4, nburst=0,
          aoutscale=5, corrthr=6, tilag2=7)


def user(cx, pre='us', name=b'dep', comments=b'hello', sym=(), **kw):
    """user configuration; sym: 16-bit fields with symbolic bytes;
    -> Rec, {field: value}"""
    assert not set(kw) - set(K0), kw
    K = dict(K0, **kw)
    r = rec(cx, pre, 0).zeros(2)
    v = {}

    def put(*nms):
        for nm in nms:
            if nm in sym:
                v[nm] = r.u16(nm)
            else:
                r.pack('H', K[nm])
                v[nm] = K[nm]
    put('T1', 'blank', 'T3', 'T4', 'T5', 'NPings', 'avg', 'NBeams', 'tim', 'pwr', 'A1', 'B0', 'B1', 'update', 'coord',
        'nbins', 'binlen', 'interval')
    r.pack('6s', name)
    put('wrap')
    r.raw(clock(20, 8, 5, 10, 12, 30))
    r.pack('I', 7)                    # diagnostics interval
    put('mode', 'sndadj', 'nsdiag', 'nbcdiag', 'npdiag', 'modetest', 'anain', 'swver', 'salinity')
    r.pack('90H', *range(90))         # speed of sound table
    r.pack('80s', comments).zeros(48)
    put('wproc')
    r.zeros(50)
    put('wmode', 'dynperc', 'wT1', 'wT2', 'wT3', 'nsamp')
    r.zeros(4)
    put('nburst')
    r.zeros(2)
    put('aoutscale', 'corrthr')
    r.zeros(2)
    put('tilag2')
    r.zeros(30).pack('8H', *range(8))
    return done(cx, r), v


def vec_hdr(cx, when, n=2, pre='vh'):
    r = rec(cx, pre, 0x12).zeros(2).raw(clock(*when)).pack('H4B4B', n, 40, 41, 42, 0, 90, 91, 92, 0).zeros(20)
    return done(cx, r)


def vec_check(cx, n=4, pre='vc'):
    r = rec(cx, pre, 7).zeros(2).pack('2H', n, 0).raw(bytes(range(3 * n)))
    return done(cx, r)


def vec_sys(cx, when, pre='vs', status=None, sym=(), any_sum=True):
    """-> Rec, {field: value}; status None: symbolic"""
    r = rec(cx, pre, 0x11, ()).zeros(2).raw(clock(*when))
    x = {}
    for nm, kind, d, k in [('batt', 'u16', 130, .1), ('c_sound', 'u16', 15000, .1), ('heading', 'i16', 900, .1),
                           ('pitch', 'i16', 10, .1), ('roll', 'i16', -20, .1), ('temp', 'i16', 1234, .01)]:
        if nm in sym:
            x[nm] = getattr(r, kind)(nm) * k
        else:
            r.pack('h' if kind == 'i16' else 'H', d)
            x[nm] = d * k
    x['error'] = r.u8('error') if 'error' in sym else (r.pack('B', 0), 0)[1]
    if status is None:
        x['status'] = r.u8('status')
    else:
        r.pack('B', status)
        x['status'] = status
    r.pack('H', 77)
    return done(cx, r), x


def vec_data(cx, pre='vd', sym=True, sym_sum=False):
    """no size word; pressure is split in two around the analog input"""
    r = rec(cx, pre, 0x10, ())
    x = {}
    if not sym:
        r.pack('4B2H3h6B', 0, 0, 0, 0, 0, 0, *range(9))
        x.update(pressure=0, vel=[.001 * i for i in range(3)], amp=[3, 4, 5], corr=[6, 7, 8])
        return done(cx, r, sized=False), x
    x['AnaIn2LSB'], x['Count'] = r.u8('ai2l'), r.u8('count')
    msb = r.u8('pmsb')
    r.u8('ai2m')
    x['pressure'] = (msb * 65536 + r.u16('plsw')) * .001
    r.u16('ai1')
    x['vel'] = [r.i16('v%d' % i) * .001 for i in range(3)]
    x['amp'] = [r.u8('a%d' % i) for i in range(3)]
    x['corr'] = [r.u8('c%d' % i) for i in range(3)]
    return done(cx, r, sized=False, sym_sum=sym_sum), x


def micro(cx, id, pre='mi'):
    """MicroStrain block: (delta angle, delta velocity, matrix), (accel,
    angular rate, magnetometer, matrix) or (dangle, dvel, mag)"""
    r = rec(cx, pre, 0x71, ()).zeros(2).pack('BB', 0, id)
    x = {}
    names = {0xc3: ['angrt', 'accel', 'mat'], 0xcc: ['accel', 'angrt', 'mag', 'mat'], 0xd3: ['angrt', 'accel', 'mag']}[id]
    for nm in names:
        n = 9 if nm == 'mat' else 3
        x[nm] = [r.f32('%s%d' % (nm, i)) for i in range(n)]
    r.zeros(4)
    if id != 0xc3:
        r.zeros(2)
    return done(cx, r), x


def awac(cx, when, nbins, pre='aw', nb=3, sym=('vel', 'amp')):
    r = rec(cx, pre, 0x20, ()).zeros(2).raw(clock(*when))
    x = {}
    for nm, kind, d, k in [('error', 'u16', 0, 1), ('AnaIn1', 'u16', 5, 1), ('batt', 'u16', 130, .1), ('c_sound', 'u16', 15000, .1),
                           ('heading', 'i16', 900, .1), ('pitch', 'i16', 10, .1), ('roll', 'i16', -20, .1), ('pmsb', 'u8', 1, 1),
                           ('status', 'u8', 0, 1), ('plsw', 'u16', 300, 1), ('temp', 'i16', 1234, .01)]:
        if nm in sym:
            x[nm] = getattr(r, kind)(nm) * k
        else:
            r.pack({'u16': 'H', 'i16': 'h', 'u8': 'B'}[kind], d)
            x[nm] = d * k
    x['pressure'] = (x['pmsb'] * 65536 + x['plsw']) * .001
    r.zeros(88)
    s16 = r.i16 if 'vel' in sym else (lambda nm: (r.pack('h', 3), 3)[1])
    s8 = r.u8 if 'amp' in sym else (lambda nm: (r.pack('B', 3), 3)[1])
    x['vel'] = [[s16('v%d_%d' % (b, i)) * .001 for i in range(nbins)] for b in range(nb)]
    x['amp'] = [[s8('a%d_%d' % (b, i)) for i in range(nbins)] for b in range(nb)]
    if len(r.b) % 2:
        r.zeros(1)
        r.b.pop()
    n = (len(r.b) + 2) // 2
    r.b[2], r.b[3] = n % 256, n // 256
    return r.raw(0, 0), x


def vno_hdr(cx, pre='vnh', n=19):
    r = rec(cx, pre, 0x50).zeros(2).pack('HH2H', 100, 50, 3, 4).raw(bytes(range(8))).pack('hH', 1500, 15000).raw(bytes(range(16)))
    r.zeros(max(0, 40 - len(r.b)))
    return done(cx, r)


def vno_event(cx, when, pre='vne'):
    r = rec(cx, pre, 0x0f).zeros(2).raw(clock(*when)).zeros(14)
    return done(cx, r)


def vno_data(cx, pre='vnd', nb=4):
    r = rec(cx, pre, 0x51, ())
    x = {'status': r.u8('st'), 'Count': r.u8('cnt')}
    x['vel'] = [r.i16('v%d' % i) * .001 for i in range(4)]
    x['amp'] = [r.u8('a%d' % i) for i in range(4)]
    x['corr'] = [r.u8('c%d' % i) for i in range(4)]
    return done(cx, r, sized=False), x


def head3(cx, serial=b'VEC 1234', hwst=0, headkw=None, **kw):
    return [hw(cx, serial, hwst), head(cx, **(headkw or {})), user(cx, **kw)[0]]
