"""V01: the shortcut dat.velds."""
import os
import re
import numpy as np
import dolfyn
from symx.runner import Harness
from checks.common import *
from checks.rotlib import build, HEAD
from checks.r05 import omatds


def equal(cx, what, a, b):
    cx.check(what + ': names', set(a.variables) == set(b.variables))
    for k in a.variables:
        x, y = a[k].values, b[k].values
        cx.check(what + ': shape', x.shape == y.shape and a[k].dims == b[k].dims)
        if getattr(x, 'dtype', None) is not None and x.dtype.kind in 'UOSM':
            cx.check(what + ': labels', [str(v) for v in np.ravel(x)] == [str(v) for v in np.ravel(y)])
            continue
        for ix in np.ndindex(*x.shape):
            cx.close(what + ': ' + k, x[ix], y[ix], 1e-9)
    cx.check(what + ': attrs', set(a.attrs) == set(b.attrs))
    for k in ('coord_sys', 'declination', 'declination_in_orientmat', 'inst2head_rotmat_was_set'):
        cx.check(what + ': ' + k, a.attrs.get(k) == b.attrs.get(k))


def declination(frame):
    """velds.set_declination is set_declination"""
    def f(cx):
        ds = omatds(cx, "vector", frame)
        old = ds.copy(deep=True)
        w = dolfyn.set_declination(ds, 12.5, inplace=False)
        b = ds.velds.set_declination(12.5, inplace=False)
        equal(cx, 'copy', b, w)
        equal(cx, 'kept', ds, old)
        cx.check('nothing returned', ds.velds.set_declination(12.5) is None)
        equal(cx, 'in place', ds, w)
    return Harness('declination_' + frame, f, bounds='one ping of any velocity and attitude')


def head(cx):
    """velds.set_inst2head_rotmat is set_inst2head_rotmat"""
    ds = build(cx, 'vector', 'inst', n=1, ph=False)
    old = ds.copy(deep=True)
    w = dolfyn.set_inst2head_rotmat(ds, HEAD, inplace=False)
    b = ds.velds.set_inst2head_rotmat(HEAD, inplace=False)
    equal(cx, 'copy', b, w)
    equal(cx, 'kept', ds, old)
    cx.check('nothing returned', ds.velds.set_inst2head_rotmat(HEAD) is None)
    equal(cx, 'in place', ds, w)


def rotated(a, b):
    """velds.rotate2 is rotate2"""
    def f(cx):
        ds = build(cx, 'vector', a, n=1, ph='principal' in (a, b))
        old = ds.copy(deep=True)
        w = dolfyn.rotate2(ds, b, inplace=False)
        equal(cx, 'original kept', ds, old)
        o = ds.velds.rotate2(b, inplace=False)
        equal(cx, 'copy', o, w)
        equal(cx, 'kept', ds, old)
        cx.check('nothing returned', ds.velds.rotate2(b) is None)
        equal(cx, 'in place', ds, w)
    return Harness('rotate_%s_%s' % (a, b), f, bounds='one ping of any velocity, fixed attitude')


def lookup(cx):
    """names, variables, coordinates and attributes are those of the dataset"""
    ds = build(cx, 'signature', 'inst', n=2, nr=2, ph=False)
    v = ds.velds
    for k in ds.variables:
        cx.check('known', k in v)
        x, y = v[k].values, ds[k].values
        cx.check('same', v[k].dims == ds[k].dims and x.shape == y.shape)
        if y.dtype.kind == 'f':
            for ix in np.ndindex(*y.shape):
                cx.close('value of ' + k, x[ix], y[ix], 0)
    cx.check('unknown', 'nothing' not in v)
    cx.raises('lookup', KeyError, v.__getitem__, 'nothing')
    cx.check('names', list(v.variables) == sorted(ds.variables))
    cx.check('coords', set(v.coords) == set(ds.coords))
    v.attrs['note'] = 'x'
    cx.check('attrs', ds.attrs['note'] == 'x' and dict(v.attrs) == dict(ds.attrs))


def saved(cx):
    """velds.save writes what save writes"""
    ds = build(cx, 'vector', 'inst', n=2, ph=False)
    d = cx.tmpdir()
    a, b = os.path.join(d, 'a.nc'), os.path.join(d, 'b.nc')
    ds.velds.save(a)
    dolfyn.save(ds, b)
    equal(cx, 'saved', dolfyn.load(a), dolfyn.load(b))
    ds.velds.save(os.path.join(d, 'c.nc'), compression=True)
    equal(cx, 'compressed', dolfyn.load(os.path.join(d, 'c.nc')), dolfyn.load(b))


def shown(cx):
    """showing a dataset tells its times and frame and changes nothing"""
    for dt, word in ((1, '7.00 seconds'), (60, '7.00 minutes'), (3600, '7.00 hours'), (86400, '7.00 days')):
        t = np.datetime64('2020-02-28T23:59:50', 'ns') + np.arange(8) * np.timedelta64(dt, 's').astype('timedelta64[ns]')
        ds = build(cx, 'vector', 'inst', n=8, ph=False, att=dict(heading=np.zeros(8), pitch=np.zeros(8), roll=np.zeros(8)))
        ds = ds.assign_coords(time=t)
        ds.attrs.update(inst_make='Nortek', inst_model='Vector', inst_type='ADV')
        old = ds.copy(deep=True)
        s = repr(ds.velds)
        cx.check('span', word in s and 'Feb 28, 2020 23:59' in s)
        cx.check('frame', 'inst-frame' in s and '8 pings @ ' in s and 'ADV' in s and 'Nortek Vector' in s)
        cx.check('variables', re.search(r"- vel \('dir', 'time'\)", s) is not None)
        equal(cx, 'kept', ds, old)


def harnesses(tier):
    return [rotated('inst', 'earth'), rotated('earth', 'principal'), rotated('inst', 'beam'), declination('inst'), declination('earth'), Harness('head', head, bounds='one ping of any velocity and attitude'),
            Harness('lookup', lookup, bounds='2 pings, 2 cells, any values'), Harness('saved', saved, bounds='2 pings, any values'),
            Harness('shown', shown, bounds='8 pings of any velocity, four sample spacings')]
