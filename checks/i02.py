"""I02: TRDI fixed and variable leaders."""
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import rdiwire as W
from checks.i01 import load, blocks, compare
from checks.wire import Rec


def leaders(ver, model='workhorse', nblk=1):
    """every configuration and environment field, and the data after them"""
    def f(cx):
        nc = 1
        fx, xf = W.fixed(cx, nc, 'f', ver=ver, sym=True, coord=0x18)
        v, xv = W.var(cx, 'v', ver=ver, sym=True, model=model)
        bl = blocks(cx, 0, nc, ['vel'])
        fx2, _ = W.fixed(cx, nc, 'f2', ver=ver)
        tail = W.pd0(cx, [fx2, W.var(cx, 'vt', ver=ver, model=model)[0]])
        dat, bb = load(cx, W.rdi_file(cx, [[fx, v] + [b[1] for b in bl]], tail=tail), nens=1)
        at, dv = dat['attrs'], dat['data_vars']
        cx.close('firmware', at['prog_ver'], ver[0] + ver[1] / 100., 1e-9)
        for nm, w in xf.items():
            if nm == 'water_ref_cells':
                for a, b in zip(at[nm], w):
                    cx.close(nm, a, b, 0)
            elif nm == 'bin1_dist_m':
                cx.close(nm, at[nm], w, 1e-3)
            else:
                cx.close(nm, at[nm], w, 1e-6, rel=1e-9)
        for nm, w in xv.items():
            cx.check(nm + ' present', nm in dv)
            if nm == 'pressure':
                # signed in some manuals, unsigned here: no claim above 2^31
                cx.assume(w <= 2147483)
            cx.close(nm, dv[nm][0], w, 1e-3 if 'pressure' in nm else 2e-5, rel=1e-6)
        compare(cx, dv, 'vel', bl[0][2], 0)
    return Harness('leaders_%d_%02d' % ver, f, bounds='one ensemble, firmware %d.%02d, every field any bytes but 7f' % ver)


BEAM = {0: 15, 1: 20, 2: 30}
FREQ = [75, 150, 300, 600, 1200, 2400, 38]


def sysconf(cx):
    """system-configuration and coordinate bits"""
    lo, hi, co = pick(cx, 'freq', 0, 6), pick(cx, 'angle', 0, 2), pick(cx, 'coord', 0, 3)
    up, convex, b5 = pick(cx, 'up', 0, 1), pick(cx, 'convex', 0, 1), pick(cx, 'beam5', 0, 1)
    if (hi, b5) != (1, 0) and (lo, co) != (3, 2):
        cx.assume(False)
    fx, _ = W.fixed(cx, 1, 'f', ver=(8, 30), sysconf=(lo | convex << 3 | 0x50 | up << 7, hi | b5 << 4 | 0x40), coord=co << 3 | 5)
    v, _ = W.var(cx, 'v', ver=(8, 30))
    tail = W.pd0(cx, [fx, v])
    dat, bb = load(cx, W.rdi_file(cx, [[fx, v]], tail=tail))
    at = dat['attrs']
    cx.check('frequency', at['freq'] == FREQ[lo])
    cx.check('beam angle', at['beam_angle'] == BEAM[hi])
    cx.check('beams', at['n_beams'] == 4 + b5)
    cx.check('orientation', at['orientation'] == ('up' if up else 'down'))
    cx.check('pattern', at['beam_pattern'] == ('convex' if convex else 'concave'))
    cx.check('coordinates', at['coord_sys'] == ['beam', 'inst', 'ship', 'earth'][co])
    cx.check('transform bits', at['use_pitchroll'] == 'yes' and at['use_3beam'] == 'no' and at['bin_mapping'] == 'yes')


def coord_bits(cx):
    """all eight low bits of the coordinate byte"""
    b = pick(cx, 'byte', 0, 31)
    fx, _ = W.fixed(cx, 1, 'f', coord=b)
    v, _ = W.var(cx, 'v')
    dat, bb = load(cx, W.rdi_file(cx, [[fx, v]], tail=W.pd0(cx, [fx, v])))
    at = dat['attrs']
    yn = lambda m: 'yes' if b & m else 'no'
    cx.check('bits', (at['use_pitchroll'], at['use_3beam'], at['bin_mapping']) == (yn(4), yn(2), yn(1)) and at['coord_sys'] == ['beam', 'inst', 'ship', 'earth'][b >> 3])


def other_angle(cx):
    """beam angle 'other' in the bits: the angle byte of newer firmware counts"""
    fx, x = W.fixed(cx, 1, 'f', ver=(47, 12), sysconf=(0x4b, 0x43), sym=True)
    v, _ = W.var(cx, 'v', ver=(47, 12))
    dat, bb = load(cx, W.rdi_file(cx, [[fx, v]], tail=W.pd0(cx, [fx, v])), nens=1)
    cx.close('beam angle', dat['attrs']['beam_angle'], x['beam_angle'], 0)


def clock(ver, cent):
    """the clock becomes the time coordinate, century included"""
    def f(cx):
        import datetime
        mo, ho = pick(cx, 'month', 1, 12), pick(cx, 'hour', 0, 2) * 11
        yr, day, mi, se, hs = 20 if cent == 20 else 99, 28, 59, 7, pick(cx, 'hundredths', 0, 3) * 33
        c = (yr, mo, day, ho, mi, se, hs)
        fx, _ = W.fixed(cx, 1, 'f', ver=ver)
        v, _ = W.var(cx, 'v', ver=ver, clock=c, cent=cent, **({'model': 'broadband'} if ver[0] == 5 else {}))
        dat, bb = load(cx, W.rdi_file(cx, [[fx, v]], tail=W.pd0(cx, [fx, v])))
        y = cent * 100 + yr
        ep = (datetime.datetime(y, mo, day, ho, mi, se) - datetime.datetime(1970, 1, 1)).total_seconds() + hs / 100.
        cx.check('time', abs(float(dat['coords']['time'][0]) - ep) < 1e-3)
    return Harness('clock_%d%s' % (ver[0] * 100 + cent, '' if ver[1] > 27 else '_%d' % ver[1]), f, bounds='one ensemble, every month, 12 times of day', max_paths=200)


def harnesses(tier):
    h = [leaders((16, 28)), leaders((8, 10)), leaders((8, 35)), leaders((50, 40)), leaders((56, 2)),
         leaders((23, 17), 'ocean surveyor'), leaders((5, 58), 'broadband'),
         Harness('sysconf', sysconf, bounds='frequency, angle, beams, orientation, pattern, coordinate codes', max_paths=400),
         Harness('coord_bits', coord_bits, bounds='all 32 coordinate codes'),
         Harness('other_angle', other_angle, bounds='firmware 47.12, any angle byte'),
         clock((16, 28), 20), clock((16, 28), 19), clock((8, 35), 20), clock((5, 55), 21), clock((5, 58), 20), clock((16, 5), 19)]
    h += [leaders(v) for v in ((8, 14), (8, 24), (16, 5), (16, 27), (5, 55))]
    h += [leaders((16, 10)), leaders((8, 20)), leaders((8, 13)), leaders((10, 16)), leaders((77, 1)), leaders((67, 1)), leaders((14, 19), 'ocean surveyor'), leaders((23, 20), 'ocean surveyor')]
    if tier == 'thorough':
        h += [leaders((v, r)) for v, r in ((31, 4), (47, 12), (66, 1), (51, 40), (52, 41))] + [clock((50, 40), 20), clock((56, 2), 20)]
    return h
