"""R07: the RDI beam transformation recovers a uniform flow with zero error
velocity for every beam angle and head shape."""
from symx.runner import Harness
from checks.rotlib import *

T = 1e-4


def uniform(convex, rad=False):
    def f(cx):
        from dolfyn.rotate.rdi import _calc_beam_orientmat
        th = cx.angle('theta', 10, 45)
        if rad:
            M = arr(_calc_beam_orientmat(th * (np.pi / 180), convex, degrees=False))
        else:
            M = arr(_calc_beam_orientmat(th, convex))
        u, v, w, e = (cx.real(k, -10, 10) for k in 'uvwe')
        c = 1 if convex else -1
        s_, c_ = cx.sin(th), cx.cos(th)
        b = [c * u * s_ + w * c_, -c * u * s_ + w * c_, -c * v * s_ + w * c_, c * v * s_ + w * c_]
        out = [sum(M[i, j] * b[j] for j in range(4)) for i in range(4)]
        for k, (nm, x) in enumerate((('u', u), ('v', v), ('w', w), ('error velocity', 0))):
            cx.close(nm, out[k], x, T)
        # the error velocity sees only the disagreement of the two beam planes
        cx.close('error row scaled like the horizontal rows', sum(M[3, j] * M[3, j] for j in range(4)),
                 sum(M[0, j] * M[0, j] for j in range(4)), 1e-3)
        for i in range(3):
            cx.close('error row orthogonal to flow rows', sum(M[3, j] * M[i, j] for j in range(4)), 0, T)
        b2 = [b[0] + e, b[1] + e, b[2] - e, b[3] - e]
        out = [sum(M[i, j] * b2[j] for j in range(4)) for i in range(4)]
        for k, (nm, x) in enumerate((('u', u), ('v', v), ('w', w))):
            cx.close(nm + ' blind to plane disagreement', out[k], x, T)
        cx.check('error velocity sign', cx.implies(e > 0, out[3] > 0))
    return Harness('uniform_%s%s' % ('convex' if convex else 'concave', '_rad' if rad else ''), f,
                   bounds='beam angle 10..45 deg, flow components and plane disagreement in [-10, 10]')


def invert(convex):
    """inst -> beam (numerical inverse) gives the beam projections, at 20/30 deg"""
    def f(cx):
        from dolfyn.rotate.rdi import _calc_beam_orientmat
        import math
        for th in (15, 20, 25, 30):
            v = cx.reals('vel', (4, 1, 1), -10, 10)
            ds = dataset(cx, 'rdi', 'inst', v.copy(), 1, 1, orientation='down')
            beam_mat(cx, ds, _calc_beam_orientmat(th, convex))
            w = arr(rot(ds, 'beam')['vel'])
            a = arr(v)
            c = 1 if convex else -1
            s_, c_ = math.sin(math.radians(th)), math.cos(math.radians(th))
            k = s_ / math.sqrt(2)
            x, y, z, e = (a[i, 0, 0] for i in range(4))
            exp = [c * x * s_ + z * c_ + e * k, -c * x * s_ + z * c_ + e * k,
                   -c * y * s_ + z * c_ - e * k, c * y * s_ + z * c_ - e * k]
            for i in range(4):
                cx.close('beam %d at %d deg' % (i + 1, th), w[i, 0, 0], exp[i], 1e-3)
    return Harness('invert_%s' % ('convex' if convex else 'concave'), f, bounds='beam angle 15, 20, 25, 30; any inst velocity <= 10')


def harnesses(tier):
    return [uniform(1), uniform(0), uniform(1, True), uniform(0, True), invert(1), invert(0)]
