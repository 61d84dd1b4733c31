#!/usr/bin/env python3
"""Development aid: run every property's search over random schemas.

  explore.py FIRST_SEED ROUNDS [SCHEMAS] [RUNS_DIVISOR] [PROPS...]
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, randschema
from plan import PLAN

first, rounds = int(sys.argv[1]), int(sys.argv[2])
count = int(sys.argv[3]) if len(sys.argv) > 3 else 32
div = int(sys.argv[4]) if len(sys.argv) > 4 else 10
props = sys.argv[5:] or sorted(PLAN)
out = os.path.join(V, 'build', 'scratch.explore.%d' % os.getpid())
os.makedirs(out, exist_ok=True)
for s in range(first, first + rounds):
    exe, bad = check.build('explore', os.path.join(check.REPO, 'include'), randschema.make(s, count))
    for k, log in bad.items():
        lines = [l for l in log.splitlines() if ' error: ' in l or 'static assertion' in l]
        print('seed %d: %s does not compile: %s' % (s, k, '\n    '.join(lines[:3])), flush=True)
    for p in props:
        rp = os.path.join(out, '%s-%d.replay' % (p, s))
        r = subprocess.run([exe, '--prop', p, '--seed', '1', '--variant', '0', '--ceiling', str(16 << 20), '--scratch', out, '--runs',
                            str(PLAN[p]['runs'] // div), '--lanes', '8', '--max-seconds', '60', '--replay-out', rp],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=check.ENV)
        try:
            res = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            print(s, p, 'NO RESULT', r.returncode, r.stderr[-500:], flush=True)
            continue
        if r.returncode:
            print('seed %d %s: exit %d %s %s' % (s, p, r.returncode, rp, json.dumps(res.get('violation'))[:1200]), flush=True)
    print('seed %d done' % s, flush=True)
