#!/usr/bin/env python3
"""Keep the instrument file a check harness builds (concretely, with random
fields) for use by a demo:  capture.py CHECK HARNESS SEED OUTDIR"""
import sys, os, shutil, warnings, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get('DOLFYN_REPO', '/repo')]
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from symx.engine import ConcCtx
chk, name, sd, out = sys.argv[1:5]
m = importlib.import_module('checks.' + chk)
h = [h for t in ('quick', 'thorough') for h in m.harnesses(t) if h.name == name][0]
os.makedirs(out, exist_ok=True)
for k in range(int(sd), int(sd) + 400):       # until the assumptions hold
    c = ConcCtx({}, seed=k)
    real = c.file
    def keep(data, *a, **kw):
        p = real(data, *a, **kw)
        shutil.copy(p, os.path.join(out, os.path.basename(p)))
        return p
    c.file = keep
    try:
        h.fn(c)
        break
    except BaseException as e:
        err = e
else:
    print('raised', repr(err))
print(k, os.listdir(out), 'fails', [str(f)[:80] for f in c.fails[:3]])
