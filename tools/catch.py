#!/usr/bin/env python3
"""Development tool (not a check): run the quick check of each planted bug
against a scratch copy of /repo with the bug applied.  catch.py [ids...] [--prop Cxx]"""
import json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
prop = None
if '--prop' in args:
    k = args.index('--prop'); prop = args[k + 1]; del args[k:k + 2]
S = '/verif/seeded'
ids = args or sorted(os.listdir(S))
os.makedirs('/tmp/catch', exist_ok=True)
for i in ids:
    d = f'/tmp/catch/{i}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['git', 'apply', f'{S}/{i}/patch.diff'], cwd=d, check=True)
    p = prop or json.load(open(f'{S}/{i}/meta.json'))['property']
    t0 = time.time()
    r = subprocess.run(['./run.sh', 'check', p, '--tier', 'quick', '--seed', '1', '--no-min'], cwd='/verif',
                       env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    lines = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l]
    print(f'{i:28s} {p} rc={r.returncode} {time.time()-t0:5.1f}s', 'CAUGHT' if r.returncode == 1 and any(f'property={p} ' in l for l in lines) else 'MISSED',
          '' if lines else (r.stdout + r.stderr)[-300:], flush=True)
    shutil.rmtree(d, ignore_errors=True)
