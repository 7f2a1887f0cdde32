#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutate.py [-j N] [-b BUDGET] [-o OUT] FILE[:FROM-TO]...

Applies every small change that tools/mutate knows to each file of a copy of
/repo; those that compile and pass the existing tests are run through the
workloads of the properties (in one process each, BUDGET per property).
Prints one line per change: invalid, tests, killed (by what) or SURVIVED."""
import sys, os, subprocess, shutil, concurrent.futures as cf, threading, argparse
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=7)
ap.add_argument('-b', default='2s')
ap.add_argument('-o', default='/tmp/mutants.txt')
ap.add_argument('-skip', default='', help='kind of change to leave out')
ap.add_argument('-props', default='', help='properties instead of the usual ones')
ap.add_argument('-race', default=None, help='RACE of the build')
ap.add_argument('-again', default='', help='only what survived in this file')
ap.add_argument('files', nargs='+')
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
os.makedirs(W, exist_ok=True)
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
subprocess.run(['go', 'build', '-o', W + '/mutate', V + '/tools/mutate/main.go'], check=True, env=dict(env, GO111MODULE='off', GOFLAGS=''))
BODY = 'C01,C04,C02,C10,C03,C05,C06,C07,C08,C09,C11,C25,C26'.split(',')
RESP = 'C12,C13,C14,C15,C27,C16,C17,C18,C19,C20,C25,C26'.split(',')
def props(f):
    if a.props: return a.props.split(',')
    if f.startswith('body/body'): return ['C20', 'C11'] + BODY + ['C16']
    if f.startswith('body/'): return BODY + ['C11', 'C20']
    if f.startswith('internal'): return ['C21']
    first = {'handler': 'C18,C19', 'response/builder.go': 'C17,C16', 'response/writer.go': 'C14,C15', 'response/util.go': 'C16,C12'}
    for k, v in first.items():
        if f.startswith(k): return v.split(',') + [p for p in RESP if p not in v]
    return RESP
free, lock = list(range(a.j)), threading.Lock()
out = open(a.o, 'a')
def run(cmd, t, **k):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t, **k)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def one(f, n, line, what):
    with lock: w = free.pop()
    d, b = f'{W}/r{w}', f'{W}/b{w}'
    try:
        if not os.path.isdir(d): shutil.copytree('/repo', d)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d, check=True)
        subprocess.run([W + '/mutate', '/repo/' + f, str(n), d + '/' + f], check=True, capture_output=True)
        # changes that leave imports or variables unused are repaired as a person would: not at all
        rc, o = run(['go', 'build', './...'], 120, cwd=d, env=env)
        if rc: return 'invalid'
        rc, o = run(['go', 'test', './...'], 40, cwd=d, env=env)
        if rc: return 'tests'
        rc, o = run(['bash', V + '/check.sh', 'build', b], 300, env=dict(env, REPO=d, **({} if a.race is None else {'RACE': a.race})))
        if rc: return 'NOBUILD ' + o[-200:]
        shutil.rmtree(b + '/tmp', ignore_errors=True); os.makedirs(b + '/tmp')
        rc, o = run([b + '/simcheck', '-scan', ','.join(props(f)), '-budget', a.b, '-verif', V, '-tmp', b + '/tmp'], 400,
                    env=dict(env, GOMAXPROCS='1', GORACE=f'suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3 log_path={b}/tmp/race'))
        if rc == 0: return 'SURVIVED'
        l = [x for x in o.splitlines() if x.strip()]
        return f'killed rc={rc} ' + (l[0][:150] if l else '')
    finally:
        with lock: free.append(w)
def job(t):
    f, n, line, what = t
    try: r = one(*t)
    except Exception as e: r = 'ERROR %r' % e
    with lock:
        out.write(f'{f}:{line} #{n} {what} => {r}\n'); out.flush()
todo = []
again = {tuple(l.split(' ')[:2]) for l in open(a.again) if 'SURVIVED' in l} if a.again else None
done = set()
for l in open(a.o):  # what is there already is not done again
    done.add(tuple(l.split(' ')[:2]))
for f in a.files:
    for l in subprocess.run([W + '/mutate', '/repo/' + f], capture_output=True, text=True, check=True).stdout.splitlines():
        n, line, what = l.split('\t', 2)
        if 'assert.' in what and 'drop' in what: continue
        if a.skip and what.startswith(a.skip): continue
        if (f'{f}:{line}', f'#{n}') in done: continue
        if again is not None and (f'{f}:{line}', f'#{n}') not in again: continue
        todo.append((f, int(n), int(line), what))
print(len(todo), 'changes')
with cf.ThreadPoolExecutor(a.j) as ex: list(ex.map(job, todo))
