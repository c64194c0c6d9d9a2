#!/usr/bin/env python3
"""write DESIGN.md"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
T = os.path.join(V, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read()]
try:
    caught = json.load(open(os.path.join(T, 'caught.json')))
except FileNotFoundError:
    caught = {}
out.append('## 2. Properties, one by one\n\nFor each: what is decided, the code that is executed symbolically, the harnesses with their bounds (quick tier), and the cost of the last run.\n')
for p in sorted(props.P, key=lambda p: p['id']):
    out.append('### %s %s' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('* Over: %s.' % p['text'])
    out.append('* Why the tests cannot settle it: %s' % p['why'])
    out.append('* Anchors: %s.' % '; '.join('%s (`%s`)' % m for m in p['mech']))
    out.append('* Decision: %s' % p['note'])
    f = os.path.join(V, 'evidence', p['id'] + '.json')
    if os.path.exists(f):
        c = json.load(open(f))['coverage']
        hs = c['harnesses']
        groups = {}
        for h in hs:
            groups.setdefault(h['bounds'], []).append(h['name'])
        out.append('* Harnesses: ' + '; '.join('%s — %s' % (', '.join('`%s`' % n for n in (ns if len(ns) <= 6 else ns[:5] + ['... %d more' % (len(ns) - 5)])), b)
                                              for b, ns in groups.items()) + '.')
        s = c['solver']
        out.append('* Cost: %d paths, %d assertions (%d by normal form), %d queries, %.0f s solver time; %d functions of the repository encoded.' % (
            c['paths'], c['assertions'], s['normal_form'], s['queries'], s['solver_s'], len(c['functions_encoded'])))
    out.append('')
for p in props.NA:
    out.append('### %s %s (not applicable)' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('* ' + p['reason'] + '\n')
out.append('## 3. Defects found\n\nEvery line of `known_findings.txt`: `fixed:` entries are commits in /repo (they suppress nothing), the others are '
           'recorded findings that the checks print as KNOWN-FINDING.\n')
out.append('| property | commit / input | what failed |\n|---|---|---|')
for l in open(os.path.join(V, 'known_findings.txt')):
    l = l.strip()
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('| %s | fixed %s | %s |' % m.groups())
    else:
        m = re.match(r'property=(\S+) (\S+) (.*)', l)
        if m:
            out.append('| %s | open: %s | %s |' % m.groups())
out.append('\n## 4. Planted bugs\n\nEach is in `seeded/<id>/` (patch, demo, needs); all were confirmed on a scratch copy (demo 0 without, non-zero with; stable tests pass). "Caught by" names '
           'the harness and the assertion that reported it.\n')
out.append('| seed | what it breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    s = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'], m['needs'], caught.get(s, m['property'])))
out.append('')
out.append(open(os.path.join(T, 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
