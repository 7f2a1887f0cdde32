#!/usr/bin/env python3
"""Runs each planted change of seeded/ against its property's quick check.

usage: catchall.py [-v VERIF] [-j N] [ids...]   (nothing in /repo is touched)
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
verif, jobs, ids = '/verif', 3, []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-v': verif = a.pop(0)
    elif x == '-j': jobs = int(a.pop(0))
    else: ids.append(x)
seeded = '/verif/seeded'
ids = ids or sorted(os.listdir(seeded))
def one(i):
    wt = f'/tmp/wt.{i}'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    try:
        p = subprocess.run(['git', 'apply', f'{seeded}/{i}/patch.diff'], cwd=wt)
        if p.returncode: return i, 'NOAPPLY', '', 0
        prop = json.load(open(f'{seeded}/{i}/meta.json'))['property']
        t = time.time()
        p = subprocess.run([f'{verif}/check.sh', prop, 'quick'], env=dict(os.environ, REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
        c = re.findall(r'^class (\S+)', p.stdout, re.M)
        return i, 'CAUGHT' if p.returncode == 1 and v else f'MISSED rc={p.returncode}', ','.join(sorted(set(c))), time.time() - t
    finally:
        shutil.rmtree(wt, ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex:
    for i, r, c, t in ex.map(one, ids):
        print(f'{r:8} {i:45} {t:4.0f}s {c}', flush=True)
