"""N01: a dataset saved as netCDF is loaded back as it was."""
import os
import numpy as np
import xarray as xr
from symx.runner import Harness
import dolfyn
from dolfyn.io import api

NAMES = {3: dict(inst=['X', 'Y', 'Z'], earth=['E', 'N', 'U'])}


def times(n, f=123456789):
    return (np.datetime64('2012-06-12T12:00:02', 'ns') + (np.arange(n) * 31250000 + f).astype('timedelta64[ns]'))


def dataset(cx, n=3, nr=0, f8=False, cplx=(), flags=(), text=False, **attrs):
    t = times(n, 120000000)
    ds = xr.Dataset(coords={'time': ('time', t), 'dir': ['X', 'Y', 'Z'], 'beam': np.arange(1, 4, dtype='int32')})
    if nr:
        ds = ds.assign_coords(range=('range', .5 + np.arange(nr)))
    d = ('dir', 'range', 'time') if nr else ('dir', 'time')
    sh = (3, nr, n) if nr else (3, n)
    ds['vel'] = xr.DataArray(cx.reals('v', sh, -10, 10, nan=True, dtype='float64' if f8 else 'float32'), dims=d,
                             attrs={'units': 'm s-1', 'long_name': 'Water Velocity', 'standard_name': 'sea_water_velocity'})
    ds['heading'] = xr.DataArray(cx.reals('h', (n,), 0, 360, dtype='float64' if f8 else 'float32'), dims=('time',), attrs={'units': 'degree'})
    ds['count'] = xr.DataArray(cx.array([cx.int('c%d' % i, 0, 255) for i in range(n)], dtype='uint8'), dims=('time',), attrs={'units': '1'})
    ds['steps'] = xr.DataArray(cx.array([cx.int('s%d' % i, -2**31, 2**31 - 1) for i in range(n)], dtype='int32'), dims=('time',))
    if 'down' in flags:
        ds['orientation_down'] = xr.DataArray(np.array([True, False] * n)[:n], dims=('time',))
    if 'mat' in flags:
        ds = ds.assign_coords(x1=('x1', np.arange(1, 4, dtype='int32')), x2=('x2', np.arange(1, 4, dtype='int32')))
        ds['beam2inst_orientmat'] = xr.DataArray(cx.reals('m', (3, 3), -3, 3), dims=('x1', 'x2'))
    if 'two' in flags:
        ds = ds.assign_coords(time_b5=('time_b5', times(n + 1, 7000000)))
        ds['vel_b5'] = xr.DataArray(cx.reals('b', (n + 1,), -10, 10, nan=True, dtype='float32'), dims=('time_b5',))
    if 'tvar' in flags:
        ds['time_gps'] = xr.DataArray(times(n, 999000000), dims=('time',))
    if 'tunits' in flags:
        for nm in [k for k in ds.variables if 'time' in k]:
            ds[nm].attrs.update(units='seconds since 1970-01-01 00:00:00', long_name='Time', standard_name='time')
    for nm in cplx:
        z = cx.reals(nm + 'r', (n,), -5, 5) + 1j * cx.reals(nm + 'i', (n,), -5, 5)
        ds[nm] = xr.DataArray(z, dims=('time',), attrs={'units': 'm s-1'})
    if text:
        ds['flag'] = xr.DataArray(np.array(['a', 'bc', ''][:n] + ['d'] * (n - 3)), dims=('time',))
    ds.attrs.update(inst_make='Nortek', inst_model='Vector', inst_type='ADV', fs=32.0, has_imu=1, coord_sys='inst',
                    rotate_vars=['vel', 'accel'], n_beams=3, latlon=[47.5, -122.5], declination=15.25)
    ds.attrs.update(attrs)
    return ds


def parts(ds):
    return {k: (v.dims, np.dtype(v.dtype), dict(v.attrs), v.data) for k, v in ds.variables.items()}


def same(cx, nm, a, b, tol=2e-6, rel=1e-7):
    if np.dtype(a.dtype).kind in 'OUSbM' and a.dtype != bool:
        cx.check(nm, a.shape == b.shape and bool(np.all(np.asarray(a) == np.asarray(b))))
    else:
        cx.close(nm, a, b, tol, rel=rel)


def attr_equal(a, b):
    if isinstance(a, (list, tuple, np.ndarray)):
        return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return not isinstance(b, (list, tuple)) and bool(a == b)


def compare(cx, before, attrs, out, f8=False, tw=1000):
    cx.check('variables', set(out.variables) == set(before))
    for k, (dims, dt, at, data) in before.items():
        got = out[k]
        cx.check('dimensions', got.dims == dims)
        if dt.kind == 'M':
            x, y = got.values.astype('datetime64[ns]').astype('int64'), np.asarray(data).astype('datetime64[ns]').astype('int64')
            cx.check('times', bool(np.all(abs(x - y) <= tw)))
        else:
            same(cx, k, got.data, data)
            cx.check('kind', got.dtype.kind == dt.kind or dt.kind in 'OU' and got.dtype.kind in 'OU')
            cx.check('size', f8 or dt.kind not in 'iuf' or k in ('range',) or got.dtype == dt or dt == np.float64)
        for q in ('units', 'long_name', 'standard_name'):
            if dt.kind != 'M' or q == 'long_name':
                cx.check('variable attributes', got.attrs.get(q) == at.get(q))
    for k, v in attrs.items():
        cx.check('attribute ' + k, k in out.attrs and attr_equal(v, out.attrs[k]))
    cx.check('no more attributes', set(out.attrs) == set(attrs))


def back(name, save={}, fn='data.nc', again=False, coord_only=False, **kw):
    def f(cx):
        ds = dataset(cx, **kw)
        before, attrs = parts(ds), {k: (list(v) if isinstance(v, list) else v) for k, v in ds.attrs.items()}
        p = os.path.join(cx.tmpdir(), fn)
        dolfyn.save(ds, p, **save)
        # the dataset in memory is what it was
        after = parts(ds)
        cx.check('kept: names', list(after) == list(before))
        for k in before:
            if k in after:
                cx.check('kept: layout', after[k][:3] == before[k][:3])
                same(cx, 'kept: values', after[k][3], before[k][3], 0)
        cx.check('kept: attributes', set(ds.attrs) == set(attrs) and all(attr_equal(v, ds.attrs[k]) for k, v in attrs.items()))
        q = p if p.endswith('.nc') else p + '.nc'
        cx.check('file', os.path.isfile(q))
        out = dolfyn.load(p)
        compare(cx, before, attrs, out, kw.get('f8', False))
        for k, e in save.get('encoding', {}).items():
            cx.check('encoding', all(out[k].encoding.get(a) == b for a, b in e.items()))
        for k in ('vel', 'heading'):
            if k not in save.get('encoding', {}):
                cx.check('compressed', bool(out[k].encoding.get('zlib', False)) == bool(save.get('compression', False)))
        if again:
            p2 = os.path.join(cx.tmpdir(), 'second.nc')
            dolfyn.save(out, p2)
            compare(cx, before, attrs, dolfyn.load(p2), kw.get('f8', False))
            dolfyn.save(ds, p2, compression=True)
            compare(cx, before, attrs, dolfyn.load(p2), kw.get('f8', False))
    return Harness('back_' + name, f, bounds='%s, every value and missing value' % name)


def extension(cx):
    ds = dataset(cx, n=2)
    for bad in ('data.mat', 'data.nc.txt', 'data.'):
        cx.raises('extension', IOError, dolfyn.save, ds, os.path.join(cx.tmpdir(), bad))
        cx.raises('extension', IOError, dolfyn.load, os.path.join(cx.tmpdir(), bad))


def harnesses(tier):
    hs = [Harness('extension', extension, bounds='four file names'),
          back('times', nr=1, flags=('two', 'tvar', 'tunits')), back('times_again', again=True, flags=('two', 'tunits')), back('vector', flags=('down', 'mat')), back('double', f8=True), back('profiles', nr=2, flags=('two', 'tvar')),
          back('one_complex', cplx=('U',)), back('two_complex', cplx=('U', 'V')), back('long_complex', cplx=('vel_c', 'U')),
          back('compressed', save=dict(compression=True), flags=('down',)),
          back('encoding', save=dict(encoding={'vel': dict(zlib=True, complevel=4)})),
          back('encoding_compressed', save=dict(compression=True, encoding={'heading': dict(zlib=True, complevel=7)})),
          back('again', again=True, flags=('mat', 'two')), back('again_complex', again=True, cplx=('U',)),
          back('no_extension', fn='data'), back('dotted', fn='mcrl.vel-1s.b1.20200813.nc'),
          back('one_rotate_var', rotate_vars=['vel']), back('lists', principal_heading=12.5, wakeup='power', cell=[1, 2, 3], note=''),
          back('text', text=True), back('single', n=1), back('text_compressed', text=True, save=dict(compression=True))]
    return hs
