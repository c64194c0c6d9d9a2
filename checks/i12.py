"""I12: the kind of file, the user's data, incomplete records at the end."""
import json
import os
import warnings
import numpy as np
from symx.runner import Harness
from checks.common import arr, pick
from checks import nwire as W
from checks.i06 import load, t0, epoch, compare
from checks import i07
from dolfyn.io import api, base, nortek

LFS = b'version https://git-lfs.github.com/spec/'


def kind(name, raw):
    """dolfyn.read picks the reader by the first bytes of the file, whatever its name"""
    def f(cx):
        b = raw(cx)
        got = []
        real = {k: getattr(api, k) for k in ('read_rdi', 'read_nortek', 'read_signature')}
        for fn in ('data.000', 'data.vec', 'data'):
            p = cx.file(cx.mkbytes([b]), name=fn)
            out = []
            try:
                for k in real:
                    def stub(fname, userdata=True, nens=None, k=k, **kw):
                        out.append((k, fname == p, userdata, nens, kw))
                        return k
                    setattr(api, k, stub)
                try:
                    r = api.read(p, userdata=False, nens=(1, 3), other=5)
                except IOError:
                    r = None
            finally:
                for k in real:
                    setattr(api, k, real[k])
            got.append(r)
            cx.check('arguments', out == ([(r, True, False, (1, 3), dict(other=5))] if r else []))
        cx.check('name does not matter', got[0] == got[1] == got[2])
        if len(b) < 2:
            cx.check('too short', got[0] is None)
            return
        is_ = lambda x, y: cx.all([b[0] == x, b[1] == y])
        table = {'read_rdi': cx.any([is_(0x7f, 0x7f), is_(0x7f, 0x79)]), 'read_signature': is_(0xa5, 0x0a), 'read_nortek': is_(0xa5, 0x05)}
        for k, c in table.items():
            cx.check(k, cx.implies(c, got[0] == k))
            cx.check('only ' + k, c if got[0] == k else True)
    return Harness('kind_' + name, f, bounds='%s; three file names' % name)


def free(n):
    return lambda cx: [cx.int('b%d' % i, 0, 255) for i in range(n)]


def pointer(cx):
    """pointers of git-lfs are told from data"""
    k = pick(cx, 'cut', 38, 45)
    b = (LFS + b'v1\noid')[:k]
    p = cx.file(cx.mkbytes([b]), name='data.vec')
    try:
        api.read(p)
    except IOError as e:
        cx.check('told', ('lfs' in str(e)) == (k >= 40) and 'data.vec' in str(e))
    else:
        cx.check('refused', False)


class substitute:
    """values in json text of the form "@name" become symbolic"""

    def __init__(self, vals):
        self.vals = vals

    def __enter__(self):
        self.load, self.loads = json.load, json.loads

        def walk(x):
            if isinstance(x, dict):
                return {k: walk(v) for k, v in x.items()}
            if isinstance(x, list):
                return [walk(v) for v in x]
            return self.vals[x[1:]] if isinstance(x, str) and x.startswith('@') else x
        json.load = lambda *a, **k: walk(self.load(*a, **k))
        json.loads = lambda *a, **k: walk(self.loads(*a, **k))

    def __exit__(self, *a):
        json.load, json.loads = self.load, self.loads


def where(cx):
    """which userdata file is used"""
    beside, full, other = [bool(cx.bool(k)) for k in ('beside', 'full', 'other')]
    d = cx.tmpdir()
    fn = os.path.join(d, 'data.1.vec')
    names = [(beside, 'data.1.userdata.json', 1), (full, 'data.1.vec.userdata.json', 2), (other, 'other.json', 3)]
    for on, nm, v in names:
        if on:
            with open(os.path.join(d, nm), 'w') as h:
                json.dump({'id': v}, h)
    get = lambda u: base._find_userdata(fn, u)
    cx.check('default', get(True) == ({'id': 1} if beside else {'id': 2} if full else {}))
    cx.check('off', get(False) == {})
    if other:
        cx.check('named', get(os.path.join(d, 'other.json')) == {'id': 3})
    else:
        cx.raises('missing', OSError, get, os.path.join(d, 'other.json'))


def contents(cx):
    """matrices and vectors of the user's data"""
    m = cx.reals('m', (3, 3), -1, 1)
    v = [cx.real('v%d' % i, -5, 5) for i in range(3)]
    x = cx.real('x', -90, 90)
    vals = {'m%d%d' % (i, j): arr(m)[i, j] for i in range(3) for j in range(3)}
    vals.update({'v%d' % i: v[i] for i in range(3)}, x=x)
    mat = [['@m%d%d' % (i, j) for j in range(3)] for i in range(3)]
    d = cx.tmpdir()
    for old in (False, True):
        pre = 'body' if old else 'inst'
        for rot in (mat, 'identity', 'eye', 1, 1.0):
            p = os.path.join(d, 'u.json')
            with open(p, 'w') as h:
                json.dump({pre + '2head_rotmat': rot, pre + '2head_vec': ['@v0', '@v1', '@v2'], 'declination': '@x', 'note': 'a b'}, h)
            with substitute(vals), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = base._find_userdata(os.path.join(d, 'data.vec'), p)
            cx.check('names', set(got) == {'inst2head_rotmat', 'inst2head_vec', 'declination', 'note'})
            r = got['inst2head_rotmat']
            cx.check('shape', tuple(r.shape) == (3, 3))
            for i in range(3):
                for j in range(3):
                    cx.close('matrix', r[i, j], arr(m)[i, j] if rot is mat else float(i == j), 0)
                cx.close('vector', got['inst2head_vec'][i], v[i], 0)
            cx.check('list', isinstance(got['inst2head_vec'], list))
            cx.close('value', got['declination'], x, 0)
            cx.check('text', got['note'] == 'a b')


def reaches(how):
    """user data of a Vector file reach the dataset"""
    def f(cx):
        n, rot = 3, [[0, 1, 0], [1, 0, 0], [0, 0, -1]]
        lat = cx.real('lat', -90, 90)
        recs, xd = W.head3(cx, avg=512), []
        for i in range(n):
            recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
            r, x = W.vec_data(cx, 'd%d' % i)
            recs.append(r)
            xd.append(x)
        d = cx.tmpdir()
        p = os.path.join(d, 'u.json')
        body = dict(lat='@lat', station='A1')
        if 'rot' in how:
            body['inst2head_rotmat'] = rot
        if 'dec' in how:
            body['declination'] = 20.0
        with open(p, 'w') as h:
            json.dump(body, h)
        with substitute(dict(lat=lat)):
            ds = load(cx, recs, userdata=p)
        cx.close('latitude', ds.attrs['lat'], lat, 0)
        cx.check('station', ds.attrs['station'] == 'A1')
        if 'rot' in how:
            cx.check('matrix', np.array_equal(np.asarray(ds['inst2head_rotmat'].values, float), rot))
        else:
            cx.check('no matrix', 'inst2head_rotmat' not in ds)
        cx.check('declination', ds.attrs.get('declination') == (20.0 if 'dec' in how else None))
        for i in range(n):
            vx, vy, vz = xd[i]['vel']
            if 'rot' in how:                              # a symmetric matrix: the same either way
                vx, vy, vz = vy, vx, -vz
            for j, w in enumerate((vx, vy, vz)):
                cx.close('velocity', ds['vel'].values[j, i], w, 2e-5, rel=1e-6)
    return Harness('reaches_' + how, f, bounds='3 samples with any data bytes, any latitude')


def trailing(name, n, keys, two=False, big=400):
    """only pings without clock or motion data at the end of the file are dropped"""
    def f(cx):
        t = cx.reals('t', (n,), 1e9, 2e9, nan='time' in keys)
        mk = lambda k, sh: cx.reals(k, sh, -9, 9, nan=k in keys or k == 'vel')
        dv = {k: mk(k, (3, n)) for k in ('accel', 'angrt', 'mag', 'vel') if k in keys or k == 'vel'}
        if 'head' in keys:
            dv['heading'] = mk('heading', (n,))
        dv['beam2inst_orientmat'] = cx.reals('bm', (3, 3), -2, 2)
        dv['profile'] = cx.reals('pr', (3, 2, n), -9, 9)
        dv['sys'] = cx.reals('sy', (n + 1,), -9, 9)
        if two:                                            # all components of a record are lost together
            for k in keys:
                if k in dv:
                    for i in range(n):
                        a = arr(dv[k])
                        for j in range(2):
                            cx.assume(cx.all([cx.implies(cx.isnan(a[j, i]), cx.isnan(a[2, i])), cx.implies(cx.isnan(a[2, i]), cx.isnan(a[j, i]))]))
        data = dict(coords={'time': t, 'range': np.arange(2.)}, data_vars=dict(dv), attrs={}, sys={})
        t0_ = arr(t).copy()
        d0 = {k: arr(v).copy() for k, v in dv.items()}
        out = base._handle_nan(data)
        m = len(arr(out['coords']['time']))

        def lost(i):
            c = [cx.isnan(t0_[i])] if 'time' in keys else []
            c += [cx.isnan(d0[k][2, i]) for k in keys if k in d0]
            return cx.any(c)
        for i in range(n):
            cx.check('dropped' if i >= m else 'last', lost(i) if i >= m else (cx.not_(lost(i)) if i == m - 1 else True))
        for i in range(m):
            cx.close('times', arr(out['coords']['time'])[i], cx.ite(cx.isnan(t0_[i]), float('nan'), t0_[i]), 0)
        for k, v in d0.items():
            w = v if k in ('beam2inst_orientmat', 'sys') else v[..., :m]
            g = arr(out['data_vars'][k])
            cx.check('shape of ' + k, g.shape == w.shape)
            if g.shape == w.shape:
                for ix in np.ndindex(*w.shape):
                    cx.close(k, g[ix], w[ix], 0)
        cx.check('range', len(out['coords']['range']) == 2)
    return Harness('trailing_' + name, f, bounds='%d pings, %s present or missing' % (n, ', '.join(keys)), max_paths=big)


def lost_imu(where):
    """a Vector file with IMU records missing: at the end, those samples go;
    elsewhere nothing goes"""
    def f(cx):
        n, recs, xd = 5, W.head3(cx, avg=512), []
        for i in range(n):
            recs.append(W.vec_sys(cx, t0(i), 's%d' % i, status=0)[0])
            r, x = W.vec_data(cx, 'd%d' % i)
            recs.append(r)
            xd.append(x)
            if i not in where:
                r = W.rec(cx, 'm', 0x71).zeros(2).pack('BB', 0, 0xcc).pack('9f', *range(1, 10)).pack('9f', 1, 0, 0, 0, 1, 0, 0, 0, 1)
                recs.append(W.done(cx, r.zeros(6)))
        ds = load(cx, recs)
        m = n
        while m - 1 in where:
            m -= 1
        cx.check('samples', ds['time'].shape == (m,) and ds['vel'].shape == (3, m))
        for i in range(min(m, ds['time'].size)):
            compare(cx, ds, xd, i, i)
            cx.check('time', abs((ds['time'].values[i] - epoch(t0(i))) / np.timedelta64(1, 'ms')) < 2)
            cx.check('lost', bool(np.isnan(np.asarray(ds['accel'].values[:, i], float)).all()) == (i in where))
    return Harness('lost_imu_' + '_'.join(map(str, where)), f, bounds='5 samples of any bytes, no IMU block after ' + str(where))


def harnesses(tier):
    h = [kind('any_2', free(2)), kind('any_40', free(40)), kind('none', free(0)), kind('one', free(1)), Harness('pointer', pointer, bounds='text of 38..45 bytes'),
         Harness('where', where, bounds='each of three files present or not'), Harness('contents', contents, bounds='any numbers'),
         reaches('plain'), reaches('rot'), reaches('dec'), reaches('rot_dec'),
         trailing('time', 4, ('time',)), trailing('accel', 3, ('accel',)), trailing('imu', 3, ('time', 'accel', 'mag'), two=True),
         trailing('angrt', 4, ('angrt',)), lost_imu((2,)), lost_imu((0, 1)), lost_imu((4,)), lost_imu((1, 3, 4))]
    h += [trailing('time', 6, ('time',), big=2000), trailing('imu', 4, ('time', 'accel', 'mag'), two=True, big=4000)]
    if tier == 'thorough':
        h += [kind('any_200', free(200)), trailing('accel', 8, ('accel',)), lost_imu((0, 2, 3)), lost_imu((0, 1, 2, 3))]
    return h
