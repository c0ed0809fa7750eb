#!/usr/bin/env python3
"""Create and confirm a planted bug.
usage: plant.py SPEC.py      SPEC defines id, prop, file, edits=[(old,new)], demo (python text), needs, breaks
       plant.py --check ID.. run the property's check on each planted bug
Applies the change to /repo, runs the demo and the stable tests, undoes it."""
import sys, os, json, subprocess, runpy
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C /repo checkout -- .')
def env():
    return 'set -a; . /opt/vp/env.sh; set +a; '
def rebuild(p):
    if p.endswith('.f') or p.endswith('.pyf'):
        sh('bash /opt/vp/build.sh')
def plant(spec):
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    files = s['file'] if isinstance(s['file'], list) else [s['file']]
    edits = s['edits']
    for e in edits:
        f = files[0] if len(e) == 2 else e[0]
        old, new = e[-2:]
        p = R + '/package/inference/' + f
        t = open(p, newline='').read(); assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout); undo()
    open(d+'/demo.py','w').write(s['demo'])
    open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) && cd "$t" || exit 3\npython "$d/demo.py"; rc=$?\ncd / && rm -rf "$t"\nexit $rc\n')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d+'/meta.json','w'), indent=1)
    r0 = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    a = sh('git -C /repo apply %s/patch.diff' % d); assert a.returncode == 0, a.stderr
    try:
        for f in files: rebuild(f)
        r1 = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        o = json.load(open('/tmp/plant.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [t for t in b if t not in o['passed']]
    finally:
        undo()
        for f in files: rebuild(f)
    print(s['id'], 'unchanged rc', r0.returncode, 'patched rc', r1.returncode, 'tests broken', bad)
    print((r0.stdout+r0.stderr)[-300:] if r0.returncode else '', '| patched says:', (r1.stdout+r1.stderr)[-250:])
    if r0.returncode or not r1.returncode or bad:
        print('NOT COUNTED'); return
    check(s['id'])
def check(i):
    d = '/verif/seeded/' + i; p = json.load(open(d+'/meta.json'))['property']
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'does not apply', a.stderr); return
    try:
        r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py %s quick' % p)
    finally:
        undo()
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, v[:1], flush=True)
if sys.argv[1] == '--check':
    for i in sys.argv[2:] or sorted(os.listdir('/verif/seeded')): check(i)
else:
    for s in sys.argv[1:]: plant(s)
