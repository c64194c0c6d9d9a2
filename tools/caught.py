#!/usr/bin/env python3
"""Run each planted bug's check against a scratch copy of /repo and note in tools/caught.json which harness reports it.
usage: caught.py [ids]   (only ids not yet in caught.json unless named)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'tools', 'caught.json')
try: C = json.load(open(out))
except FileNotFoundError: C = {}
ids = sys.argv[1:]
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    s = os.path.basename(d)
    if (ids and s not in ids) or (not ids and s in C): continue
    p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='caught')
    subprocess.run(['cp', '-a', '/repo/dolfyn', t])
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t, check=True)
    r = subprocess.run(['./run.py', p, '-v'], cwd=V, env=dict(os.environ, DOLFYN_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    vs = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    shutil.rmtree(t)
    hs = []
    for l in vs:
        m = re.search(r'replay=(\S+)', l)
        try:
            j = json.load(open(m.group(1)))
            h = '%s `%s` (%s)' % (p, j.get('harness'), j.get('label'))
            if h not in hs: hs.append(h)
        except Exception as e: print(s, l, e)
    C[s] = '; '.join(hs[:2]) + ('; %d more' % (len(hs) - 2) if len(hs) > 2 else '') if hs else 'NOT CAUGHT'
    print(s, r.returncode, C[s], flush=True)
    json.dump(C, open(out, 'w'), indent=1, sort_keys=True)
