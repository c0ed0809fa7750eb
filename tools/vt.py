"""vt.py Cxx [task...]: run proof tasks and print what is not discharged"""
import sys, json, subprocess, importlib, os
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
sys.path.insert(0, V)
p = sys.argv[1]
m = importlib.import_module('props.' + p)
ts = [n for n, _ in m.TASKS if not sys.argv[2:] or any(a in n for a in sys.argv[2:])]
lim = os.environ.get('LIM', str(getattr(m, 'TASK_S', 60)))


def one(t):
    r = subprocess.run([sys.executable, '-m', 'engine.runtask', p, t, lim], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED='0', VC_DEBUG='1'))
    try:
        return json.loads(r.stdout), r.stderr
    except Exception:
        return dict(task=t, status='?', detail=r.stderr[-1500:], wall_s=0, obligations=[], paths=0), ''


with ThreadPoolExecutor(7) as ex:
    for d, err in ex.map(one, ts):
        print(d['task'], d['status'], d['wall_s'], 'paths', d['paths'], dict(Counter(o['status'] for o in d['obligations'])))
        if d['status'] != 'ok':
            print('   ', d['detail'][-1500:], err[-1200:])
        seen = set()
        for o in d['obligations']:
            if o['status'] != 'discharged' and o['name'] not in seen:
                seen.add(o['name'])
                print('   !', o['name'], o['status'], 'imprecise' if o['imprecise'] else '', str(o['reason'])[:300], str(o['model'])[:300])
