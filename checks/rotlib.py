"""Shared rotation harness pieces."""
import itertools
import numpy as np
import dolfyn
from checks.common import *

FR = ['beam', 'inst', 'earth', 'principal']
HEAD = np.array([[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]]) @ \
    np.array([[1.0, 0, 0], [0, 0.28, -0.96], [0, 0.96, 0.28]])


def attitude(cx, n, tilt=90, rlim=180):
    lim = tilt
    return dict(heading=cx.angles('heading', n, 0, 360), pitch=cx.angles('pitch', n, -lim, lim),
                roll=cx.angles('roll', n, -rlim, rlim))


def rdi_beam(theta=20):
    from dolfyn.rotate.rdi import _calc_beam_orientmat
    return _calc_beam_orientmat(theta)


def build(cx, kind, coord, n=1, nr=None, nan=False, tilt=None, imu=False, head=False, ph=True,
          bt=False, vmax=10, omat=None, attrs=None, down=None, orient='up', att=None):
    """a dataset of one instrument kind with symbolic velocities and attitude"""
    nb = {'vector': 3, 'awac': 3, 'signature': 4, 'ad2cp': 4, 'rdi': 4}[kind]
    if kind == 'vector':
        nr = None
    shape = (nb, nr, n) if nr else (nb, n)
    v = cx.reals('vel', shape, -vmax, vmax, nan=nan)
    if att is None:
        if tilt is None:
            tilt = 80 if kind in ('signature', 'ad2cp', 'rdi') else 90
        att = attitude(cx, n, tilt, 80 if kind in ('signature', 'ad2cp') else 180)
    kw = dict(attrs or {})
    if ph:
        kw['principal_heading'] = cx.angle('principal_heading', 0, 360)
    extra = []
    rv = ['vel']
    if imu:
        a = cx.reals('accel', (3, n), -vmax, vmax)
        extra.append(('accel', ('dirIMU', 'time'), a))
        rv.append('accel')
    if bt:
        b = cx.reals('vel_bt', (nb, n), -vmax, vmax)
        extra.append(('vel_bt', ('dir', 'time'), b))
        rv.append('vel_bt')
    kw['rotate_vars'] = rv
    if kind != 'vector':
        kw['orientation'] = orient
    if kind == 'rdi':
        kw.setdefault('use_pitchroll', 'yes')
    if kind == 'vector' and down is None and omat is None:
        down = cx.array([False] * n, 'bool')
    ds = dataset(cx, kind, coord, v, n, nr, extra=extra, imu=imu, down=down,
                 orientmat=omat, **att, **kw)
    beam_mat(cx, ds, rdi_beam() if kind == 'rdi' else TMATS['signature' if kind == 'ad2cp' else kind])
    if kind == 'awac' and omat is None:
        from dolfyn.rotate.vector import _calc_omat
        ds['orientmat'] = _calc_omat(ds['time'], ds['heading'], ds['pitch'], ds['roll'])
    if head:
        import xarray as xr
        ds['inst2head_rotmat'] = xr.DataArray(HEAD, dims=['x1', 'x2'])
        ds.attrs['inst2head_rotmat_was_set'] = 1
    return ds


def cp(ds):
    return ds.copy(deep=True)


def rot(ds, *frames):
    d = cp(ds)
    for f in frames:
        dolfyn.rotate2(d, f)
    return d
