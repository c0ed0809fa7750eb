#!/bin/bash
# replay.sh FILE: run the recorded failing input against /repo's current tree
cd "$(dirname "$0")" && exec python3-vt - "$1" <<'PY'
import sys, json, os, subprocess, shutil
sys.path.insert(0, '.')
from engine import stage
import importlib
d = json.load(open(sys.argv[1]))
if not d.get('case'):
    print('no failing input recorded; failed obligations:'); print(json.dumps(d['failed_obligations'], indent=1)); sys.exit(1)
m = importlib.import_module('props.' + d['property'])
top, pkg = stage.stage(m.EXTS)
r = subprocess.run([stage.VENV, 'harness/run.py', d['property'], 'replay', sys.argv[1]], env=stage.run_env(pkg))
shutil.rmtree(top)
sys.exit(r.returncode)
PY
