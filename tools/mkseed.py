#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds*.py: apply the edit to /repo, run
the stable tests, the demo with and without the change and (with --check) the
property's check, then undo.   usage: mkseed.py [--check] [--again] [ids...]"""
import sys, os, subprocess, json, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, files=()):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files))
ORIG = 'aaa1e99'
for f in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
    exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
check = '--check' in sys.argv; again = '--again' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
base = json.load(open('/opt/vp/BASELINE.json'))
assert not sh('git -C /repo status --porcelain').stdout.strip()
for s in SEEDS:
    if ids and s['id'] not in ids and s['prop'] not in ids: continue
    d = os.path.join(ROOT, 'seeded', s['id'])
    if os.path.exists(d + '/patch.diff') and not again and not check: continue
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if s['files'] and (again or not os.path.exists(d + '/expected.json')):
        for (chk, name, sd) in s['files']:
            r = sh('/opt/venv/bin/python -W ignore %s/tools/capture.py %s %s %d %s' % (ROOT, chk, name, sd, d))
            print(r.stdout.strip().split('\n')[-1][-150:])
        sh('RECORD=1 bash %s/demo.sh' % d, cwd='/repo')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    msg = ['clean=%d' % r0.returncode]
    if r0.returncode: msg.append(r0.stdout[-600:])
    try:
        for (f, old, new) in s['edits']:
            p = '/repo/' + f; t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            o = sh('git -C /repo show %s:%s' % (ORIG, f)).stdout.split('\n')
            gone = [l for l in old.split('\n') if l not in new.split('\n') and l not in o]
            assert not gone, (s['id'], 'not an original line', gone)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        msg.append('bug=%d' % r1.returncode + ('' if r1.returncode else ' DEMO DOES NOT FAIL'))
        msg.append(r1.stdout.strip().split('\n')[-1][-90:])
        if '--notest' not in sys.argv:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            o = open('/tmp/seedtest.json').read()
            j = json.loads(o)
            ps = set(j.get('passed', []))
            want = set(base.get('stable') or base.get('tests') or [])
            msg.append('tests=%s' % ('ok' if want and want <= ps else 'FAIL %s' % sorted(want - ps)))
        if check:
            rc = sh('./run.py %s' % s['prop'], cwd=ROOT)
            v = [l for l in rc.stdout.split('\n') if l.startswith('VIOLATION')]
            msg.append('CHECK rc=%d viol=%d %s' % (rc.returncode, len(v), '' if rc.returncode == 1 and v else '*** MISSED ***'))
    finally:
        sh('git -C /repo checkout -- .')
    print(s['id'], s['prop'], '|', ' '.join(msg), flush=True)
