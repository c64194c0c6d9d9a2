"""R02: inst/earth/principal rotations are rigid; what each component means."""
from symx.runner import Harness
from checks.rotlib import *

T = 2e-4


def rigid(kind, start, end, **kw):
    def f(cx):
        ds = build(cx, kind, start, nr=None if kind == 'vector' else 2, n=2, **kw)
        v = arr(ds['vel'])
        w = arr(rot(ds, end)['vel'])
        k = 3
        for t in range(2):
            for r in ([()] if kind == 'vector' else [(0,), (1,)]):
                a = [v[(i,) + r + (t,)] for i in range(k)]
                b = [w[(i,) + r + (t,)] for i in range(k)]
                cx.close('length preserved', sum(x * x for x in b), sum(x * x for x in a), 2e-3)
                if kind == 'rdi':
                    cx.close('error velocity untouched', w[(3,) + r + (t,)], v[(3,) + r + (t,)], 0)
        # angles between simultaneous vectors (two depth cells)
        if kind != 'vector':
            for t in range(2):
                cx.close('angle between cells preserved', sum(w[i, 0, t] * w[i, 1, t] for i in range(k)),
                         sum(v[i, 0, t] * v[i, 1, t] for i in range(k)), 2e-3)
    nm = 'rigid_%s_%s_%s' % (kind, start, end) + ''.join('_%s' % kw[k] for k in sorted(kw))
    return Harness(nm, f, bounds='%s %s->%s, 2 samples%s, |velocity|<=10, any attitude (RDI |tilt|<=80)'
                   % (kind, start, end, '' if kind == 'vector' else ' x 2 cells'))


def principal(kind, nr):
    def f(cx):
        ds = build(cx, kind, 'earth', nr=nr, n=2)
        v = arr(ds['vel'])
        out = rot(ds, 'principal')
        w = arr(out['vel'])
        h = ds.attrs['principal_heading']
        c, s = cx.cos(h), cx.sin(h)
        nb = v.shape[0]
        for ix in np.ndindex(*v.shape[1:]):
            E, N = v[(0,) + ix], v[(1,) + ix]
            cx.close('streamwise is the component along the principal heading', w[(0,) + ix], E * s + N * c, T)
            cx.close('cross-stream is 90 deg to the left', w[(1,) + ix], N * s - E * c, T)
            for k in range(2, nb):
                cx.close('vertical untouched', w[(k,) + ix], v[(k,) + ix], 0)
        back = rot(out, 'earth')
        cx.close('inverse', back['vel'].values, v, T)
    return Harness('principal_%s' % kind, f, bounds='%s earth->principal, 2 samples, any principal heading 0..360' % kind)


def sig4(down):
    """4-beam Nortek: the two vertical estimates"""
    def f(cx):
        ds = build(cx, 'signature', 'inst', nr=2, n=2, orient='down' if down else 'up', imu=True)
        v, a = arr(ds['vel']), arr(ds['accel'])
        out = rot(ds, 'earth')
        w, b = arr(out['vel']), arr(out['accel'])
        for t in range(2):
            h, p, r = (arr(ds[k])[t] for k in ('heading', 'pitch', 'roll'))
            ch, sh, cp_, sp, cr, sr = cx.cos(h), cx.sin(h), cx.cos(p), cx.sin(p), cx.cos(r), cx.sin(r)
            if down:
                cr, sr = -cr, -sr            # 180 degrees added to roll
            X = (sh * cp_, ch * cp_, sp)     # earth components of the instrument axes
            Y = (-sh * sp * sr - ch * cr, -ch * sp * sr + sh * cr, cp_ * sr)
            Z = (-sh * sp * cr + ch * sr, -ch * sp * cr - sh * sr, cp_ * cr)
            for k in range(2):
                x, y, z1, z2 = (v[i, k, t] for i in range(4))
                zm = (z1 + z2) * 0.5
                cx.close('E', w[0, k, t], x * X[0] + y * Y[0] + zm * Z[0], T)
                cx.close('N', w[1, k, t], x * X[1] + y * Y[1] + zm * Z[1], T)
                cx.close('U1', w[2, k, t], x * X[2] + y * Y[2] + z1 * Z[2], T)
                cx.close('U2', w[3, k, t], x * X[2] + y * Y[2] + z2 * Z[2], T)
            for i in range(3):
                cx.close('3-vector', b[i, t], a[0, t] * X[i] + a[1, t] * Y[i] + a[2, t] * Z[i], T)
            cx.close('3-vector length', sum(b[i, t] * b[i, t] for i in range(3)),
                     sum(a[i, t] * a[i, t] for i in range(3)), 2e-3)
    return Harness('sig4_%s' % ('down' if down else 'up'), f, bounds='Signature inst->earth, 2 samples x 2 cells + a '
                   '3-vector variable, any attitude with |tilt|<=80')


def beam(kind, nr):
    def f(cx):
        ds = build(cx, kind, 'beam', nr=nr, n=2)
        m = np.asarray(arr(ds['beam2inst_orientmat'])).astype(float)
        v = arr(ds['vel'])
        w = arr(rot(ds, 'inst')['vel'])
        nb = v.shape[0]
        for ix in np.ndindex(*v.shape[1:]):
            for i in range(nb):
                cx.close('inst = T beam', w[(i,) + ix], sum(float(m[i, j]) * v[(j,) + ix] for j in range(nb)), T)
    return Harness('beam_%s' % kind, f, bounds='%s beam->inst with its transformation matrix, 2 samples' % kind)


def gaps(kind, nr):
    """a missing component only takes the components that depend on it"""
    def f(cx):
        nb = 3 if kind in ('vector', 'awac') else 4
        shape = (nb, nr, 1) if nr else (nb, 1)
        v = cx.reals('v', shape, -10, 10, nan=True)
        ds = build(cx, kind, 'earth', nr=nr, n=1)
        ds['vel'].values[...] = v
        for src, dst in (('earth', 'principal'), ('principal', 'earth')):
            d = cp(ds)
            if src == 'principal':
                from dolfyn.rotate.base import _set_coords
                d = _set_coords(d, 'principal')
            w = arr(rot(d, dst)['vel'])
            for ix in np.ndindex(*v.shape[1:]):
                hz = cx.any([cx.isnan(v[(0,) + ix]), cx.isnan(v[(1,) + ix])])
                for k in range(nb):
                    want = hz if k < 2 else cx.isnan(v[(k,) + ix])
                    got = cx.isnan(w[(k,) + ix])
                    cx.check('%s component missing exactly when its inputs are' % ('horizontal' if k < 2 else 'vertical'),
                             cx.any([cx.all([got, want]), cx.all([cx.not_(got), cx.not_(want)])]))
                    if k >= 2:
                        cx.close('vertical component kept', w[(k,) + ix], v[(k,) + ix], 0)
    return Harness('gaps_%s' % kind, f, bounds='%s earth<->principal, every pattern of missing components' % kind)


def harnesses(tier):
    hs = [gaps('vector', None), gaps('awac', 2), gaps('signature', 1), gaps('rdi', 1)]
    for kind in ('vector', 'awac'):
        for s, e in (('inst', 'earth'), ('earth', 'inst'), ('inst', 'principal'), ('principal', 'inst')):
            hs.append(rigid(kind, s, e))
    for o in ('up', 'down'):
        for s, e in (('inst', 'earth'), ('earth', 'inst'), ('inst', 'principal')):
            hs.append(rigid('rdi', s, e, orient=o))
    for kind, nr in (('vector', None), ('awac', 2), ('signature', 2), ('rdi', 2)):
        hs.append(principal(kind, nr))
        hs.append(beam(kind, nr))
    hs += [sig4(False), sig4(True)]
    return hs
