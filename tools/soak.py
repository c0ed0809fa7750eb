#!/usr/bin/env python3-vt
"""soak.py SECS [props..]: long runs of the run-time conformance harnesses (false-alarm hunt)."""
import sys, os, json, importlib, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/harness')
import check
from engine import stage as stg
from common import literals
secs = float(sys.argv[1])
props = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(V + '/harness') if f[0] == 'C' and f.endswith('.py'))
seeds = [int(s) for s in os.environ.get('SEEDS', '1,2,1001').split(',')]
def one(a):
    p, s = a
    mod = importlib.import_module('props.' + p)
    top, pkg = stg.stage(getattr(mod, 'EXTS', []), os.environ.get('VC_REPO', '/repo'))
    try:
        i, r = literals([os.path.join('/repo/package/inference', f) for f in mod.FILES])
        if s > 1: r = list(r) + [1e-9, 1e9, -7.25, 0.1, 1e-300]; i = list(i) + [0, 1, 17]
        d = check.runtime(p, pkg, secs, s, dict(ints=i, reals=r), V + '/KNOWN_FINDINGS.txt')
        print(p, s, d['evaluations'], 'errors', d['errors'], 'FAIL %s' % json.dumps({**{k: v for k, v in d['failure'].items() if k != 'case'}, 'case': d['failure'].get('case')})[:1500] if d['failure'] else 'ok',
              d['error'][-200:], d.get('crash', ''), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)
with ThreadPoolExecutor(7) as ex:
    list(ex.map(one, [(p, s) for p in props for s in seeds]))
