"""R06: frame bookkeeping: labels and coord_sys always describe the data,
invalid requests are rejected without touching it, copies are independent."""
from symx.runner import Harness
from checks.rotlib import *

T = 2e-4


def labels(kind):
    return DIRS['rdi' if kind == 'rdi' else (4 if kind in ('signature', 'ad2cp') else 3)]


def follow(kind):
    def f(cx):
        nr = None if kind == 'vector' else 2
        for start in FR:
            ds = build(cx, kind, start, nr=nr, imu=(kind == 'signature' and start != 'beam'))
            for end in FR:
                b4 = cp(ds)
                d = cp(ds)
                ret = dolfyn.rotate2(d, end)
                cx.check('inplace returns None', ret is None)
                cx.check('coord_sys', d.attrs['coord_sys'] == end)
                cx.check('dir labels', [str(x) for x in d['dir'].values] == [str(x) for x in labels(kind)[end]])
                if start != end:
                    cx.check('ref_frame attribute', d['dir'].attrs.get('ref_frame') == end)
                if 'dirIMU' in d and end != 'beam':
                    cx.check('dirIMU labels', [str(x) for x in d['dirIMU'].values] == DIRS[3][end])
                for k in ('heading', 'pitch', 'roll'):
                    cx.close('attitude untouched', d[k].values, b4[k].values, 0)
                if start == end:
                    cx.close('rotating to the current frame is a no-op', d['vel'].values, b4['vel'].values, 0)
                cx.check('dims kept', d['vel'].dims == b4['vel'].dims and d['vel'].shape == b4['vel'].shape)
                out = dolfyn.rotate2(ds, end, inplace=False)
                cx.check('copy coord_sys', out.attrs['coord_sys'] == end)
                cx.check('caller keeps its frame', ds.attrs['coord_sys'] == start)
                cx.check('caller keeps its labels', [str(x) for x in ds['dir'].values] == [str(x) for x in labels(kind)[start]])
                cx.close('caller data untouched', ds['vel'].values, b4['vel'].values, 0)
                cx.close('same as in place', out['vel'].values, d['vel'].values, 1e-9)
    return Harness('follow_%s' % kind, f, bounds='%s, every start and target frame, any data and attitude' % kind)


def reject(kind):
    def f(cx):
        nr = None if kind == 'vector' else 2
        for start in FR:
            ds = build(cx, kind, start, nr=nr)
            for bad in ('ship', 'xyz', '', 'Beam2', 'enu'):
                d = cp(ds)
                cx.raises('invalid frame %r rejected' % bad, Exception, dolfyn.rotate2, d, bad)
                cx.check('frame unchanged after rejection', d.attrs['coord_sys'] == start)
                cx.close('data unchanged after rejection', d['vel'].values, ds['vel'].values, 0)
        d = build(cx, kind, 'earth', nr=nr)
        d.attrs['coord_sys'] = 'bogus'
        cx.raises('unknown current frame rejected', Exception, dolfyn.rotate2, d, 'inst')
        d = build(cx, kind, 'inst', nr=nr)
        d.attrs['inst_make'], d.attrs['inst_model'] = 'Acme', 'X1'
        cx.raises('unknown instrument rejected', ValueError, dolfyn.rotate2, d, 'earth')
    return Harness('reject_%s' % kind, f, bounds='%s, every start frame, 5 invalid targets' % kind)


def case(cx):
    ds = build(cx, 'vector', 'inst')
    a = rot(ds, 'earth')
    b = rot(ds, 'EARTH')
    cx.close('target frame is case-insensitive', b['vel'].values, a['vel'].values, 0)
    cx.check('coord_sys', b.attrs['coord_sys'] == 'earth')


def onlyvars(cx):
    """only the variables in rotate_vars turn"""
    for kind in ('vector', 'rdi', 'signature'):
        nr = None if kind == 'vector' else 1
        ds = build(cx, kind, 'inst', nr=nr, bt=(kind != 'vector'))
        import xarray as xr
        o = cx.reals('other', ds['vel'].shape, -5, 5)
        ds['other'] = xr.DataArray(o, dims=ds['vel'].dims)
        out = rot(ds, 'earth')
        cx.close('unlisted variable untouched', out['other'].values, ds['other'].values, 0)
        ds2 = cp(ds)
        ds2.attrs['rotate_vars'] = ['vel', 'other']
        ds2['vel'].values[...] = ds['other'].values
        out2 = rot(ds2, 'earth')
        cx.close('every listed variable turns the same way', out2['other'].values, out2['vel'].values, 1e-9)


def axes(cx):
    """labels of the frame the file was recorded in do not outlive it"""
    for kind in ('vector', 'rdi', 'signature'):
        for start, end in (('inst', 'earth'), ('earth', 'principal'), ('earth', 'inst')):
            ds = build(cx, kind, start, nr=None if kind == 'vector' else 1)
            for k in ('', '_echo', '_bt'):
                ds.attrs['coord_sys_axes' + k] = 'XYZ'
            out = rot(ds, end)
            for k in ('', '_echo', '_bt'):
                cx.check('stale axis label removed', 'coord_sys_axes' + k not in out.attrs)
            cx.check('other attributes kept', out.attrs['fs'] == ds.attrs['fs'] and out.attrs['rotate_vars'] == ['vel'])


def accessor(cx):
    """ds.velds.rotate2 is rotate2"""
    ds = build(cx, 'vector', 'inst')
    a = rot(ds, 'earth')
    b = ds.velds.rotate2('earth', inplace=False)
    cx.close('accessor copy', b['vel'].values, a['vel'].values, 1e-9)
    cx.check('caller unchanged', ds.attrs['coord_sys'] == 'inst')
    ds.velds.rotate2('earth')
    cx.close('accessor in place', ds['vel'].values, a['vel'].values, 1e-9)
    cx.check('frame', ds.attrs['coord_sys'] == 'earth')


def harnesses(tier):
    hs = []
    for k in ('vector', 'awac', 'signature', 'rdi'):
        hs += [follow(k), reject(k)]
    hs += [Harness('case', case, bounds='Vector'), Harness('rotate_vars', onlyvars, bounds='Vector, RDI, Signature inst->earth'),
           Harness('axes', axes, bounds='Vector, RDI, Signature; three rotations'),
           Harness('accessor', accessor, bounds='Vector inst->earth')]
    return hs
