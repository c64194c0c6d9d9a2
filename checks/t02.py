"""T02: run detection, axis slicing and the NaN-aware median filter."""
from symx.runner import Harness
import itertools
import numpy as np
from checks.common import arr
from dolfyn.tools import misc


def runs(b, m):
    out, i = [], 0
    while i < len(b):
        if b[i]:
            j = i
            while j < len(b) and b[j]:
                j += 1
            if j - i >= m:
                out.append((i, j))
            i = j
        else:
            i += 1
    return out


def group(n, m):
    def f(cx):
        b = cx.bools('b', (n,))
        g = misc.group(b, m) if m else misc.group(b)
        got = [(int(s.start), int(s.stop)) for s in list(g)]
        want = runs([bool(b[i]) for i in range(n)], m)
        cx.check('exactly the maximal runs, in order', got == want)
    return Harness('group_n%d_min%d' % (n, m), f, bounds='all boolean arrays of length %d, min_length %d' % (n, m), max_paths=2000)


def slices(cx):
    nd = cx.int('nd', 1, 4)
    nd = next(k for k in range(1, 5) if nd == k)
    sh = []
    for k in range(nd):
        s = cx.int('n%d' % k, 1, 3)
        sh.append(next(q for q in range(1, 4) if s == q))
    for ax in range(-nd, nd):
        if nd == 1:
            continue
        got = list(misc.slice1d_along_axis(tuple(sh), ax))
        x = np.arange(int(np.prod(sh))).reshape(sh)
        pos = ax % nd
        rest = [range(sh[k]) for k in range(nd) if k != pos]
        want = []
        for ix in itertools.product(*rest):
            ix = list(ix)
            ix.insert(pos, slice(None))
            want.append(tuple(ix))
        cx.check('one slice per series, each exactly once', [tuple(repr(i) if isinstance(i, slice) else int(i) for i in s) for s in got] ==
                 [tuple(repr(i) if isinstance(i, slice) else i for i in s) for s in want])


def median(cx):
    n, k = 4, 3
    v = cx.reals('a', (n,), -5, 5)
    out = misc.medfiltnan(v, k)
    cx.check('shape', tuple(out.shape) == (n,))
    for i in range(n):
        win = [v[j] if 0 <= j < n else 0.0 for j in range(i - 1, i + 2)]
        o = out[i]
        cx.check('median: a window value', cx.any([o == w for w in win]))
        cx.check('median: half below', cx.nsum([cx.ite(w <= o, 1, 0) for w in win]) >= 2)
        cx.check('median: half above', cx.nsum([cx.ite(w >= o, 1, 0) for w in win]) >= 2)


def gaps(cx):
    """where more than thresh of the window is missing the output is missing"""
    n, k = 5, 3
    v = cx.reals('a', (n,), -5, 5, nan=True)
    p = [bool(cx.isnan(v[i])) for i in range(n)]
    for th in (0.3, 0.5, 0.9):
        out = misc.medfiltnan(v.copy(), k, thresh=th)
        for i in range(n):
            frac = sum(p[j] for j in range(max(i - 1, 0), min(i + 2, n))) / k
            if frac > th:
                cx.check('missing', cx.isnan(out[i]))
            elif frac == 0:
                cx.check('present', cx.isnan(out[i]) == False)  # noqa


def median2(cx):
    v = cx.reals('a', (2, 3), -5, 5)
    o1 = misc.medfiltnan(v, [1, 3])
    for k in range(2):
        cx.close('rows are independent with a [1, n] kernel', o1[k], misc.medfiltnan(v[k], 3), 1e-9)


def harnesses(tier):
    q = tier == 'quick'
    hs = [group(n, m) for n in ((1, 2, 3, 4, 5, 6, 8) if q else (1, 2, 3, 4, 5, 6, 8, 10)) for m in (0, 2, 3)]
    hs += [Harness('slices', slices, bounds='shapes up to 4 dimensions of 1..3, every axis', max_paths=400),
           Harness('median', median, bounds='4 values, window 3'),
           Harness('median2', median2, bounds='2x3 values'),
           Harness('gaps', gaps, bounds='5 values, any NaN pattern, window 3', max_paths=100)]
    return hs
