#!/usr/bin/env python3
"""Mutation campaign over the JavaScript clients: tools/jsmutants.py REPO CHECKS OUT SEED N [REGEX]
REPO is a copy of the repository (scratch), CHECKS the built checks binary. Development aid."""
import os, random, re, subprocess, sys, json, shutil
from concurrent.futures import ThreadPoolExecutor

repo, checks, out, seed, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
rx = re.compile(sys.argv[6]) if len(sys.argv) > 6 else None
OPS = [(r'===', '!=='), (r'!==', '==='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'\bu8\(\)', 'u16()'), (r'\bu32\(\)', 'u64()'), (r'\bu64\(\)', 'u32()'), (r'\bpublicKey\(\)', 'bytes({ size: 31 })'), (r'\b(\d+)n?\b', lambda m: str(int(m.group(1)) + 1)),
       (r' \?\? .*?([,;)])', r'\1'), (r'&&', '||'), (r'\|\|', '&&'), (r'!(\w)', r'\1'), (r'\.payer\b', '.identity'), (r'\.identity\b', '.payer'), (r"\? 'programId' : 'omitted'", "? 'omitted' : 'programId'"),
       (r'prepend', 'append'), (r'append', 'prepend'), (r'subarray\((\w+), (\w+)\)', r'subarray(\2, \1)'), (r'input\.(\w+)', r'undefined'), (r'^\s*\[\'\w+\', .*\],$', ''), (r'^\s*\w+: .*,$', ''),
       (r'^\s*\.\w+\(.*\)$', ''), (r'if \((.*)\) \{', 'if (false) {'), (r'if \((.*)\) \{', 'if (true) {'), (r'^\s*break;', ''), (r"'(\w+)'", r"'\1x'"), (r'0xf?', '1')]
files = subprocess.check_output(['git', '-C', repo, 'ls-files', 'clients/js/*/src/*.ts', 'clients/js/*/src/**/*.ts'], text=True).split()
sites = []
for f in files:
    if rx and not rx.search(f):
        continue
    lines = open(f'{repo}/{f}').read().split('\n')
    comment = imp = False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('import') or t.startswith('export {') or t.startswith('export type') or t.startswith('export *'):
            imp = not (t.endswith(';'))
            continue
        if imp:
            imp = not (t.endswith(';'))
            continue
        if 'description' in t or 'Pick<' in t or 'bytesCreatedOnChain' in t or t.startswith(('index:', "'eddsa'")) or t.endswith('| ') or 'isSigner: false' in t or 'isWritable: false,' in t:
            continue
        if t.startswith(('//', '*', '/*', '}')) and len(t) < 4 or t.startswith(('//', '*', '/*')):
            continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
                if new != l:
                    sites.append((f, i, k, new))
    # neighbours of a struct or account list exchanged
    for i in range(len(lines) - 1):
        if re.match(r"^\s*\['\w+', .*\],$", lines[i]) and re.match(r"^\s*\['\w+', .*\],$", lines[i + 1]):
            sites.append((f, i, 'swap', lines[i + 1] + '\n' + lines[i]))
random.Random(seed).shuffle(sites)
done = set()
if os.path.exists(out):
    done = {tuple(json.loads(l)['at']) for l in open(out)}
sites = [x for x in sites if (x[0], x[1], str(x[2]), x[3]) not in done][:n]
print(len(sites), 'mutants')

def run(x, w):
    f, i, k, new = x
    d = f'/tmp/jm/{w}'
    p = f'{d}/{f}'
    orig = open(f'{repo}/{f}').read()
    lines = orig.split('\n')
    old = lines[i]
    if k == 'swap':
        lines[i:i + 2] = new.split('\n')
    else:
        lines[i] = new
    open(p, 'w').write('\n'.join(lines))
    r = {}
    for c in ('C25', 'C26'):
        env = dict(os.environ, VP_JS_REPO=d, VP_EVIDENCE=f'/tmp/jm/ev{w}', VP_PERMILLE=os.environ.get('PERMILLE', '200'), VP_THREADS='2')
        try:
            q = subprocess.run([checks, c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            r[c] = q.returncode
        except subprocess.TimeoutExpired:
            r[c] = 'time'
        if r[c] == 1:
            break
    open(p, 'w').write(orig)
    v = 'caught' if 1 in r.values() else 'build' if 2 in r.values() else 'SURVIVES' if set(r.values()) == {0} else str(r)
    return {'at': [f, i, str(k), new], 'old': old, 'verdict': v, 'by': r}

W = int(os.environ.get('WORKERS', '3'))
shutil.rmtree('/tmp/jm', ignore_errors=True)
for w in range(W):
    os.makedirs(f'/tmp/jm/{w}/clients')
    os.makedirs(f'/tmp/jm/ev{w}')
    shutil.copytree(f'{repo}/clients/js', f'/tmp/jm/{w}/clients/js')
import queue
free = queue.Queue()
for w in range(W):
    free.put(w)
def job(x):
    w = free.get()
    try:
        return run(x, w)
    finally:
        free.put(w)
with ThreadPoolExecutor(W) as ex, open(out, 'a') as o:
    for r in ex.map(job, sites):
        o.write(json.dumps(r) + '\n')
        o.flush()
        if r['verdict'] != 'caught':
            print(r['verdict'], r['at'][0], r['at'][1] + 1, '|', r['old'].strip(), '=>', r['at'][3].strip().replace('\n', ' // '), flush=True)
shutil.rmtree('/tmp/jm', ignore_errors=True)
