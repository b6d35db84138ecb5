#!/usr/bin/env python3
"""wave.py SPEC.py [WORKERS]: development aid. Runs the named check against each change in a spec (SEEDS: dicts with id,
property, edits [(file, old, new)]) in scratch copies bind-mounted over /repo and /verif in a private namespace."""
import os, queue, subprocess, sys, threading
SRC = os.environ.get('SRC', '/verif')
REPO = os.environ.get('REPO', '/repo')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ns = {}; exec(open(sys.argv[1]).read(), ns)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 2
only = os.environ.get('ONLY', '').split()
q = queue.Queue(); [q.put(s) for s in ns['SEEDS'] if not only or s['id'] in only]
def worker(i):
    d = f'/tmp/wv/{i}'
    if not os.path.isdir(d):
        os.makedirs(d); sh(f'git clone -q {REPO} {d}/repo && mkdir -p {d}/verif && cp -a {SRC}/.build {d}/verif/')
    sh(f'git -C {d}/repo checkout -q -- . && git -C {d}/repo pull -q; rm -rf {d}/verif/harness; cp -a {SRC}/check.sh {SRC}/harness {SRC}/KNOWN_FINDINGS.txt {SRC}/js {d}/verif/')
    c = 8 // n; cores = os.environ.get('CORES') or f'{i*c}-{i*c+c-1}'
    def run(cmd): return sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && nice -n 15 taskset -c {cores} {cmd}'")
    while True:
        try: s = q.get_nowait()
        except queue.Empty: return
        ok = True
        for f, old, new in s['edits']:
            p = f'{d}/repo/{f}'; t = open(p).read()
            if t.count(old) != s.get('count', 1): print(s['id'], 'BAD EDIT', f, t.count(old), flush=True); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if ok:
            r = run('./check.sh --build')
            if r.returncode: print(s['id'], 'NO BUILD', r.stderr[-600:], flush=True)
            else:
                for c in s['property'].split():
                    r = run(f'env VP_EVIDENCE={d}/ev VERIF_SEED=1 timeout 1500 ./check.sh {c}')
                    o = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith('VIOLATION')]
                    print('ok  ' if r.returncode == 1 else 'MISS', s['id'], c, r.returncode, ' '.join(o[-3:])[:220], flush=True)
        sh(f'git -C {d}/repo checkout -q -- .')
ts = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
