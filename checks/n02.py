"""N02: a dataset saved as a MATLAB file is loaded back as it was."""
import os
import numpy as np
import xarray as xr
from symx.runner import Harness
import dolfyn
from dolfyn.io import api
from checks.n01 import parts, same, attr_equal, times

DIR = {('vector', 'inst'): ['X', 'Y', 'Z'], ('vector', 'earth'): ['E', 'N', 'U'], ('vector', 'beam'): [1, 2, 3],
       ('sig', 'inst'): ['X', 'Y', 'Z1', 'Z2'], ('sig', 'earth'): ['E', 'N', 'U1', 'U2'], ('sig', 'beam'): [1, 2, 3, 4],
       ('rdi', 'earth'): ['E', 'N', 'U', 'err'], ('rdi', 'inst'): ['X', 'Y', 'Z', 'err'], ('rdi', 'ship'): ['X', 'Y', 'Z', 'err']}
MAKE = {'vector': ('Nortek', 'Vector', 'ADV'), 'sig': ('Nortek', 'Signature1000', 'ADCP'), 'rdi': ('TRDI', 'Workhorse', 'ADCP')}
U = dict(units='m s-1', long_name='Water Velocity', standard_name='sea_water_velocity')


def dataset(cx, kind='vector', frame='inst', n=3, nr=0, flags=(), f='float32', step=31250000, **attrs):
    nb = 3 if kind == 'vector' else 4
    ds = xr.Dataset(coords={'time': ('time', times(n, 120000000)), 'dir': DIR[kind, frame], 'beam': np.arange(1, nb + 1, dtype='int32')})
    if nr:
        ds = ds.assign_coords(range=('range', .5 + np.arange(nr)))
    d = ('range', 'time') if nr else ('time',)
    sh = (nr, n) if nr else (n,)
    ds['vel'] = xr.DataArray(cx.reals('v', (nb,) + sh, -10, 10, nan=True, dtype=f), dims=('dir',) + d, attrs=U)
    ds['amp'] = xr.DataArray(cx.array(cx.ints('a', (nb,) + sh, 0, 255), dtype='uint8'), dims=('beam',) + d, attrs=dict(units='1', long_name='Acoustic Signal Amplitude'))
    ds['heading'] = xr.DataArray(cx.reals('h', (n,), 0, 360, dtype=f), dims=('time',), attrs=dict(units='degree', long_name='Heading'))
    if 'down' in flags:
        ds['orientation_down'] = xr.DataArray(np.array([True, False] * n)[:n], dims=('time',))
    if 'mat' in flags:
        ax = np.arange(1, nb + 1, dtype='int32')
        ds = ds.assign_coords(x1=('x1', ax), x2=('x2', ax))
        ds['beam2inst_orientmat'] = xr.DataArray(cx.reals('m', (nb, nb), -3, 3), dims=('x1', 'x2'), attrs=dict(units='1', long_name='Rotation Matrix'))
    if 'imu' in flags:
        ds = ds.assign_coords(dirIMU=('dirIMU', list('ENU' if frame == 'earth' else 'XYZ')), earth=('earth', ['E', 'N', 'U']), inst=('inst', ['X', 'Y', 'Z']), q=('q', ['w', 'x', 'y', 'z']))
        ds['accel'] = xr.DataArray(cx.reals('ac', (3, n), -20, 20, dtype=f), dims=('dir' if kind == 'vector' else 'dirIMU', 'time'), attrs=dict(units='m s-2', long_name='Acceleration'))
        if kind == 'vector':
            ds = ds.drop_vars('dirIMU')
        ds['orientmat'] = xr.DataArray(cx.reals('o', (3, 3, n), -1, 1, dtype=f), dims=('earth', 'inst', 'time'), attrs=dict(units='1', long_name='Orientation Matrix'))
        ds['quaternions'] = xr.DataArray(cx.reals('qt', (4, n), -1, 1, dtype=f), dims=('q', 'time'), attrs=dict(units='1', long_name='Quaternions'))
    if 'b5' in flags:
        nb5 = 3 if 'three' in flags else 2
        ds = ds.assign_coords(time_b5=('time_b5', times(n + 1, 7000000)), range_b5=('range_b5', 1. + np.arange(nb5)))
        ds['vel_b5'] = xr.DataArray(cx.reals('b', (nb5, n + 1), -10, 10, nan=True, dtype=f), dims=('range_b5', 'time_b5'), attrs=U)
    if 'bt' in flags:
        ds['vel_bt'] = xr.DataArray(cx.reals('bt', (nb, n), -10, 10, nan=True, dtype=f), dims=('dir', 'time'), attrs=U)
        ds['dist_bt'] = xr.DataArray(cx.reals('db', (nb, n), 0, 100, nan=True, dtype=f), dims=('beam', 'time'), attrs=dict(units='m', long_name='Bottom Track Measured Depth'))
    if 'gps' in flags:
        ds = ds.assign_coords(time_gps=('time_gps', times(n - 1, 999000000)))
        ds['latitude_gps'] = xr.DataArray(cx.reals('lat', (n - 1,), -90, 90), dims=('time_gps',), attrs=dict(units='degrees_north', long_name='Latitude'))
    if 'avg' in flags:
        ds = ds.assign_coords(time_avg=('time_avg', times(n + 1, 5000000)), range_avg=('range_avg', 1. + np.arange(3)))
        ds['vel_avg'] = xr.DataArray(cx.reals('va', (nb, 3, n + 1), -10, 10, dtype=f), dims=('dir', 'range_avg', 'time_avg'), attrs=U)
    if 'tvar' in flags:
        ds = ds.assign_coords(time_gps=('time_gps', times(n - 1, 999000000)))
        ds['hdwtime_gps'] = xr.DataArray(times(n - 1, 123000000), dims=('time_gps',))
        ds['clock'] = xr.DataArray(times(n, 500000000), dims=('time',))
    if 'cplx' in flags:
        ds['U'] = xr.DataArray(cx.reals('Ur', (n,), -5, 5) + 1j * cx.reals('Ui', (n,), -5, 5), dims=('time',), attrs=dict(units='m s-1', long_name='Horizontal Water Velocity'))
    mk = MAKE[kind]
    ds.attrs.update(inst_make=mk[0], inst_model=mk[1], inst_type=mk[2], fs=32.0, has_imu=1, coord_sys=frame,
                    rotate_vars=['vel', 'accel'], n_beams=nb, latlon=[47.5, -122.5], declination=15.25)
    ds.attrs.update(attrs)
    ds['dir'].attrs['ref_frame'] = frame
    return ds


def compare(cx, before, attrs, out, tol):
    cx.check('variables', set(out.variables) == set(before))
    for k, (dims, dt, at, data) in before.items():
        if k not in out.variables:
            continue
        got = out[k]
        cx.check('dimensions of ' + k, got.dims == dims)
        if dt.kind == 'M':
            x, y = got.values.astype('datetime64[ns]').astype('int64'), np.asarray(data).astype('datetime64[ns]').astype('int64')
            cx.check('times', x.shape == y.shape and bool(np.all(abs(x - y) <= tol)))
        elif dt.kind in 'OUS':
            cx.check('names of ' + k, [str(v) for v in got.values] == [str(v) for v in data])
        else:
            same(cx, k, got.data, data)
            cx.check('kind of ' + k, got.dtype == dt or k in ('dir', 'beam', 'x1', 'x2', 'dirIMU'))
        for q in ('units', 'long_name', 'standard_name'):
            if q in at and dt.kind != 'M':
                cx.check('variable attributes', got.attrs.get(q) == at[q])
    for k, v in attrs.items():
        cx.check('attribute ' + k, k in out.attrs and attr_equal(v, out.attrs[k]))
    cx.check('no more attributes', set(out.attrs) == set(attrs))


def back(name, datenum=True, fn='data.mat', again=False, **kw):
    def f(cx):
        ds = dataset(cx, **kw)
        before, attrs = parts(ds), {k: (list(v) if isinstance(v, list) else v) for k, v in ds.attrs.items()}
        p = os.path.join(cx.tmpdir(), fn)
        dolfyn.save_mat(ds, p, datenum=datenum)
        after = parts(ds)
        cx.check('kept: names', list(after) == list(before))
        for k in before:
            if k in after:
                cx.check('kept: layout', after[k][:3] == before[k][:3])
                same(cx, 'kept: values', after[k][3], before[k][3], 0)
        cx.check('kept: attributes', set(ds.attrs) == set(attrs) and all(attr_equal(v, ds.attrs[k]) for k, v in attrs.items()))
        tol = 60000 if datenum else 1000
        out = dolfyn.load_mat(p, datenum=datenum)
        compare(cx, before, attrs, out, tol)
        if again:
            p = os.path.join(cx.tmpdir(), 'second.mat')
            dolfyn.save_mat(out, p, datenum=not datenum)
            compare(cx, before, attrs, dolfyn.load_mat(p, datenum=not datenum), 120000)
    return Harness('back_' + name, f, bounds='%s, every value and missing value' % name)


def extension(cx):
    ds = dataset(cx, n=2)
    for bad in ('data.nc', 'data.mat.txt'):
        cx.raises('extension', IOError, dolfyn.save_mat, ds, os.path.join(cx.tmpdir(), bad))
        cx.raises('extension', IOError, dolfyn.load_mat, os.path.join(cx.tmpdir(), bad))


def harnesses(tier):
    return [Harness('extension', extension, bounds='two file names'),
            back('vector', flags=('mat',)), back('vector_imu', frame='earth', flags=('mat', 'imu')), back('vector_beam', frame='beam'),
            back('down', flags=('down', 'mat')), back('epoch', datenum=False, flags=('down',)),
            back('sig', kind='sig', nr=2, flags=('b5', 'mat')), back('sig_three', kind='sig', nr=3, flags=('b5', 'three')), back('sig_imu', kind='sig', nr=2, n=5, frame='earth', flags=('imu',)),
            back('sig_bt', kind='sig', nr=2, flags=('bt',)), back('sig_avg', kind='sig', nr=2, flags=('avg',)),
            back('rdi', kind='rdi', nr=2, frame='earth', flags=('bt', 'gps')), back('rdi_time', kind='rdi', nr=2, frame='inst', flags=('tvar',)),
            back('epoch_times', datenum=False, kind='rdi', nr=2, frame='inst', flags=('tvar', 'gps')), back('complex', flags=('cplx',)), back('double', f='float64'), back('again', again=True, flags=('mat',)),
            back('one_rotate_var', rotate_vars=['vel']), back('lists', principal_heading=12.5, wakeup='power', cell=[1, 2, 3]),
            back('no_extension', fn='data'), back('single_ping', n=1), back('single_cell', kind='sig', nr=1)]
