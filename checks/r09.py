"""R09: inst2head_rotmat is applied exactly once, in the right frame."""
from symx.runner import Harness
from checks.rotlib import *

T = 3e-4


def once(coord):
    def f(cx):
        ds = build(cx, 'vector', coord, n=2)
        ref = rot(ds, 'inst') if coord != 'beam' else rot(ds, 'inst')
        out = dolfyn.set_inst2head_rotmat(ds, HEAD, inplace=False)
        cx.check('frame kept', out.attrs['coord_sys'] == coord)
        cx.check('caller untouched', 'inst2head_rotmat' not in ds and 'inst2head_rotmat_was_set' not in ds.attrs)
        if coord == 'beam':
            cx.close('beam data untouched', out['vel'].values, ds['vel'].values, 0)
        a = arr(ref['vel'])
        b = arr(rot(out, 'inst')['vel'])
        for t in range(2):
            for i in range(3):
                cx.close('inst velocity = H . head velocity', b[i, t], sum(float(HEAD[i, j]) * a[j, t] for j in range(3)), T)
        cx.raises('second set refused', Exception, dolfyn.set_inst2head_rotmat, out, HEAD)
        cx.close('refusal leaves data alone', rot(out, 'inst')['vel'].values, b, T)
        # beam data does not depend on the head rotation
        cx.close('beam velocity independent of H', rot(out, 'beam')['vel'].values, rot(ds, 'beam')['vel'].values, T)
    return Harness('once_%s' % coord, f, bounds='Vector data in %s, 2 samples, any attitude, one fixed rotation H' % coord)


def symbolic(cx):
    """any proper rotation about one axis, data in inst frame"""
    al = cx.angle('head angle', 0, 360)
    c, s = cx.cos(al), cx.sin(al)
    for k in range(3):
        H = [[0.0] * 3 for _ in range(3)]
        i, j = (k + 1) % 3, (k + 2) % 3
        H[k][k], H[i][i], H[j][j], H[i][j], H[j][i] = 1.0, c, c, -s, s
        ds = build(cx, 'vector', 'inst')
        a = arr(ds['vel'])
        out = cp(ds)
        r = dolfyn.set_inst2head_rotmat(out, cx.array(H, 'float64'))
        cx.check('returns None', r is None)
        b = arr(out['vel'])
        for q in range(3):
            cx.close('H v', b[q, 0], sum(H[q][p] * a[p, 0] for p in range(3)), T)
        cx.close('length kept', sum(b[q, 0] * b[q, 0] for q in range(3)), sum(a[q, 0] * a[q, 0] for q in range(3)), 1e-3)


def badmat(cx):
    ds = build(cx, 'vector', 'inst')
    k = cx.real('scale', 0.5, 0.95)
    H = cx.array([[k, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], 'float64')
    cx.raises('non-rotation refused', Exception, dolfyn.set_inst2head_rotmat, ds, H)
    for kind in ('awac', 'signature', 'rdi'):
        d = build(cx, kind, 'inst', nr=1)
        cx.raises('only for Vectors', Exception, dolfyn.set_inst2head_rotmat, d, HEAD)
    d = build(cx, 'vector', 'inst', head=True)
    d.attrs['inst2head_rotmat_was_set'] = 0
    cx.raises('matrix present but never applied is refused', Exception, dolfyn.rotate2, d, 'beam')


def harnesses(tier):
    return [once(c) for c in FR] + [Harness('symbolic', symbolic, bounds='rotations about each axis by any angle'),
                                    Harness('bad', badmat, bounds='diag(k,1,1), 0.5<=k<=0.95; other instruments')]
