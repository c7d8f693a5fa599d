"""re-runs a recorded counterexample against the real code: python3-vt replay.py FILE; exit 1 if it still violates the property"""
import glob
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run

d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix='verif_replay_')
try:
    res, timed = run.replay(d['harness'], os.path.join(os.path.dirname(HERE), 'harness', d['harness'] + '.py'), d['tier'], [d], w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print(json.dumps(res, indent=1))
bad = timed or any(r.get('violations') or r.get('phase') == 'load' for r in res)
print('violates' if bad else 'holds')
os._exit(1 if bad else 0)
