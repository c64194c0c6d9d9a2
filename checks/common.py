"""Dataset builders shared by the harnesses (real xarray datasets whose data
variables are symbolic arrays in symbolic mode and plain numpy in replay)."""
import contextlib
import logging
import numpy as np
import xarray as xr

T0 = 1.5e9


def times(n, dt=1.0):
    return (np.datetime64('2017-07-14T02:40:00.000000000') +
            (np.arange(n) * dt * 1e9).astype('int64').astype('timedelta64[ns]'))


TMATS = {
    'vector': np.array([[2.7249, -1.3770, -1.3503], [-0.0161, 2.3442, -2.3308], [0.3472, 0.3455, 0.3389]]),
    'awac': np.array([[1.5774, -0.7891, -0.7891], [0.0, -1.3662, 1.3662], [0.3677, 0.3677, 0.3677]]),
    'signature': np.array([[1.25, 0, -1.25, 0], [0, 1.25, 0, -1.25],
                           [0.5, 0, 0.5, 0], [0, 0.5, 0, 0.5]]),
}

DIRS = {3: dict(beam=[1, 2, 3], inst=['X', 'Y', 'Z'], earth=['E', 'N', 'U'],
                principal=['streamwise', 'x-stream', 'vert']),
        4: dict(beam=[1, 2, 3, 4], inst=['X', 'Y', 'Z1', 'Z2'], earth=['E', 'N', 'U1', 'U2'],
                principal=['streamwise', 'x-stream', 'vert1', 'vert2']),
        'rdi': dict(beam=[1, 2, 3, 4], inst=['X', 'Y', 'Z', 'err'], earth=['E', 'N', 'U', 'err'],
                    principal=['streamwise', 'x-stream', 'vert', 'err'])}


def dataset(cx, kind, coord, vel, n, nr=None, heading=None, pitch=None, roll=None,
            extra=(), imu=False, orientmat=None, down=None, **attrs):
    """kind: vector / awac / signature / rdi; vel: array (nb, [nr,] n)"""
    nb = vel.shape[0]
    key = 'rdi' if kind == 'rdi' else nb
    ds = xr.Dataset()
    ds = ds.assign_coords(time=('time', times(n)))
    if nr:
        ds = ds.assign_coords(range=('range', 1.0 + np.arange(nr)))
    ds = ds.assign_coords(beam=('beam', np.arange(1, nb + 1)))
    ds = ds.assign_coords(dir=('dir', DIRS[key][coord]))
    ds['dir'].attrs['ref_frame'] = coord
    if imu:
        ds = ds.assign_coords(dirIMU=('dirIMU', DIRS[3]['inst' if coord == 'beam' else coord]))
        ds['dirIMU'].attrs['ref_frame'] = coord
    dims = ('dir', 'range', 'time') if nr else ('dir', 'time')
    ds['vel'] = xr.DataArray(vel, dims=dims)
    for nm, v in (('heading', heading), ('pitch', pitch), ('roll', roll)):
        if v is not None:
            ds[nm] = xr.DataArray(v, dims=('time',))
    for nm, d, v in extra:
        ds[nm] = xr.DataArray(v, dims=d)
    if orientmat is not None:
        ds = ds.assign_coords(earth=('earth', ['E', 'N', 'U']), inst=('inst', ['X', 'Y', 'Z']))
        ds['orientmat'] = xr.DataArray(orientmat, dims=('earth', 'inst', 'time'))
    if down is not None:
        ds['orientation_down'] = xr.DataArray(down, dims=('time',))
    make = {'vector': ('Nortek', 'Vector'), 'awac': ('Nortek', 'AWAC'),
            'signature': ('Nortek', 'Signature1000'), 'rdi': ('TRDI', 'Workhorse'),
            'ad2cp': ('Nortek', 'AD2CP')}[kind]
    inst_type = 'ADV' if kind == 'vector' else 'ADCP'
    ds.attrs = dict(inst_make=make[0], inst_model=make[1], inst_type=inst_type,
                    coord_sys=coord, rotate_vars=['vel'], fs=1.0, n_beams=nb)
    if kind == 'rdi':
        ds.attrs['inst_make'] = 'TRDI'
        ds.attrs['inst_model'] = 'RDI Workhorse'
    ds.attrs.update(attrs)
    return ds


def beam_mat(cx, ds, mat):
    m = np.asarray(mat)
    ds['beam2inst_orientmat'] = xr.DataArray(m, dims=('x1', 'x2'),
                                             coords={'x1': np.arange(1, m.shape[0] + 1),
                                                     'x2': np.arange(1, m.shape[0] + 1)})
    return ds


def arr(x):
    """plain data of a DataArray / array"""
    return x.data if hasattr(x, 'dims') and hasattr(x, 'data') and not isinstance(x, np.ndarray) else x


def row(x, *ix):
    return arr(x)[ix if len(ix) > 1 else ix[0]]


def pick(cx, name, lo, hi):
    """a symbolic integer, one path per value"""
    v = cx.int(name, lo, hi)
    for k in range(lo, hi):
        if v == k:
            return k
    return hi


@contextlib.contextmanager
def quiet_log():
    """the readers reconfigure the root logger when debugging: put it back"""
    root = logging.root
    keep = root.handlers[:], root.level, logging.raiseExceptions
    logging.raiseExceptions = False
    try:
        yield
    finally:
        for h in root.handlers[:]:
            if h not in keep[0]:
                root.removeHandler(h)
                h.close()
        root.handlers[:] = keep[0]
        root.setLevel(keep[1])
        logging.raiseExceptions = keep[2]
