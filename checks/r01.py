"""R01: rotations between frames invert and do not depend on the path."""
from symx.runner import Harness
from checks.rotlib import *


def mk(kind, start, nr=None, tol=2e-4, thorough=False, **kw):
    def f(cx):
        ds = build(cx, kind, start, nr=nr, **kw)
        rv = ds.attrs['rotate_vars']
        direct = {g: rot(ds, g) for g in FR}
        for mid in FR:
            back = rot(direct[mid], start)
            for v in rv:
                if v == 'accel' and 'beam' in (start, mid):
                    continue
                cx.close('%s->%s->%s %s' % (start, mid, start, v), back[v].values, ds[v].values, tol)
            for end in FR:
                if end in (mid, start) or mid == start:
                    continue
                two = rot(direct[mid], end)
                for v in rv:
                    if v == 'accel' and 'beam' in (start, mid, end):
                        continue
                    cx.close('%s->%s->%s %s' % (start, mid, end, v), two[v].values,
                             direct[end][v].values, tol)
    nm = '%s_%s' % (kind, start) + ''.join('_' + k for k in sorted(kw) if kw[k]) + ('_r%d' % nr if nr else '')
    if kw.get('orient'):
        nm += '_' + kw['orient']
    return Harness(nm, f, bounds='%s data starting in %s; every intermediate and final frame; 2 samples%s, '
                   '|velocity|<=10, any heading/roll/principal heading, all attitudes (|tilt|<=80 for 4-beam '
                   'instruments)' % (kind, start, ' x %d ranges' % nr if nr else ''))


def harnesses(tier):
    hs = []
    for s in FR:
        hs.append(mk('vector', s, n=2))
        hs.append(mk('vector', s, n=2, head=True))
        hs.append(mk('awac', s, nr=2, n=2))
        hs.append(mk('signature', s, nr=2, n=2, imu=(s != 'beam')))
        hs.append(mk('signature', s, nr=2, n=2, orient='down', imu=(s != 'beam')))
        hs.append(mk('rdi', s, nr=2, n=2, bt=True))
        hs.append(mk('rdi', s, nr=2, n=2, orient='down'))
    return hs
