"""R10: quaternions (W, X, Y, Z) to orientation matrices."""
from symx.runner import Harness
from checks.rotlib import *
import xarray as xr

T = 1e-6


def quat(cx, n=1, nm='q'):
    q = cx.reals(nm, (4, n), -1, 1)
    for t in range(n):
        cx.assume(cx.nsum([q[i, t] * q[i, t] for i in range(4)]) > 0.01)
    return q


def da(q):
    n = q.shape[1]
    return xr.DataArray(q, dims=('q', 'time'), coords={'q': ['w', 'x', 'y', 'z'], 'time': times(n)})


def conv(q):
    return dolfyn.quaternion2orient(da(q))


def formula(cx):
    n = 2
    q = quat(cx, n)
    out = conv(q)
    cx.check('dims', out.dims == ('earth', 'inst', 'time'))
    cx.equal('earth axes', list(out['earth'].values), ['E', 'N', 'U'])
    cx.equal('inst axes', list(out['inst'].values), ['X', 'Y', 'Z'])
    cx.check('time kept', bool((out['time'].values == times(n)).all()))
    m = arr(out)
    for t in range(n):
        w, x, y, z = [q[i, t] for i in range(4)]
        s = w * w + x * x + y * y + z * z
        # rotation of the quaternion takes inst vectors to earth; the stored
        # matrix is its transpose (rows: instrument axes)
        R = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
        for i in range(3):
            for j in range(3):
                cx.close('transpose of the quaternion rotation', m[i, j, t] * s, R[j][i], T)


def proper(cx):
    q = quat(cx)
    m = arr(conv(q))
    for i in range(3):
        for j in range(3):
            cx.close('orthonormal', sum(m[i, k, 0] * m[j, k, 0] for k in range(3)), 1.0 if i == j else 0.0, T)
    d = sum(m[0, i, 0] * (m[1, (i + 1) % 3, 0] * m[2, (i + 2) % 3, 0] - m[1, (i + 2) % 3, 0] * m[2, (i + 1) % 3, 0]) for i in range(3))
    cx.close('right-handed', d, 1.0, T)
    k = cx.real('scale', 0.1, 5)
    m2 = arr(conv(q * k))
    m3 = arr(conv(-q))
    for i in range(3):
        for j in range(3):
            cx.close('scale does not matter', m2[i, j, 0], m[i, j, 0], T)
            cx.close('q and -q agree', m3[i, j, 0], m[i, j, 0], T)


def axis(cx):
    """a turn by an angle about each instrument axis"""
    al = cx.angle('angle', 0, 720)
    c, s = cx.cos(al), cx.sin(al)
    for k in range(3):
        q = [c, 0.0, 0.0, 0.0]
        q[1 + k] = s
        m = arr(conv(cx.array([[v] for v in q], 'float64')))
        i, j = (k + 1) % 3, (k + 2) % 3
        C, S = c * c - s * s, 2 * s * c
        cx.close('axis kept', m[k, k, 0], 1.0, T)
        cx.close('cos', m[i, i, 0], C, T)
        cx.close('sin', m[i, j, 0], S, T)
        cx.close('-sin', m[j, i, 0], -S, T)


def used(cx):
    """the matrix is the one Signature data are rotated with"""
    # a turn about z followed by a turn about x or y: any heading, any tilt
    a, b = cx.angle('a', 0, 180), cx.angle('b', 0, 180)
    ca, sa, cb, sb = cx.cos(a), cx.sin(a), cx.cos(b), cx.sin(b)
    q = [[ca * cb], [ca * sb], [sa * sb], [sa * cb]]
    q = cx.array(q, 'float64')
    om = conv(q)
    v = cx.reals('vel', (4, 1), -5, 5)
    ds = dataset(cx, 'signature', 'inst', v.copy(), 1, orientation='AHRS')
    beam_mat(cx, ds, TMATS['signature'])
    ds['orientmat'] = om
    e = arr(rot(ds, 'earth')['vel'])
    m = arr(om)
    w = [v[0, 0], v[1, 0], v[2, 0], v[3, 0]]
    zm = (w[2] + w[3]) / 2
    for i in range(2):
        cx.close('earth = R . inst', e[i, 0], sum(m[j, i, 0] * [w[0], w[1], zm][j] for j in range(3)), 1e-3)


def harnesses(tier):
    b = 'quaternion components in [-1,1], squared norm > 0.01'
    return [Harness('formula', formula, bounds=b + ', 2 samples'), Harness('proper', proper, bounds=b + ', 1 sample'),
            Harness('axis', axis, bounds='rotations about each axis by any angle'),
            Harness('used', used, bounds='quaternions of any z turn followed by any x turn, 1 sample, 4-beam Signature data in inst')]
