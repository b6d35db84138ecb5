#!/usr/bin/env python3
"""mutants.py OUT SEED WORKERS [FILE-REGEX]: development aid. Mechanical mutants of /repo's sources, each run
against all checks that could see it, in scratch copies bind-mounted over /repo and /verif in a private namespace.
Prints per mutant which checks catch it."""
import os, random, re, subprocess, sys, threading, queue, json
SRC = os.environ.get('SRC', '/verif')
HIST = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C23'.split()
FILES = [
 (r'programs/asset/program/src/.*\.rs', HIST),
 (r'programs/asset/types/src/(extensions|constraints)/.*\.rs', 'C14 C15 C16 C06 C07 C08 C09 C10 C18 C19'.split()),
 (r'programs/asset/types/src/(state|podded|lib).*\.rs', 'C14 C15 C16 C19'.split() + HIST),
 (r'programs/asset/interface/src/(processor|interface|lib)\.rs', ['C20']),
 (r'programs/proxy/src/.*\.rs', ['C20']),
 (r'programs/bridge/src/.*\.rs', ['C21']),
 (r'include-idl/src/.*\.rs', ['C22']),
 (r'clients/rust/asset/src/(?!generated).*\.rs', ['C18', 'C19', 'C17']),
 (r'clients/rust/(asset|bridge)/src/generated/instructions/.*\.rs', ['C17']),
 (r'clients/rust/(asset|bridge)/src/generated/(accounts|types|errors)/.*\.rs', ['C19', 'C17', 'C18']),
]
SUBS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<>=\-&])<(?=\s)', '<='), (r'(?<![<>=\-&])>(?=\s)', '>='), (r'<=', '<'), (r'>=', '>'),
 (r'&&', '||'), (r'\|\|(?=\s)', '&&'), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'\+=', '-='), (r'-=', '+='),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
 (r'(?<=[(\s])!(?=[a-z(])', ''), (r'\bsaturating_sub\b', 'saturating_add'), (r'\b1\b(?!\d)', '2'), (r'\b0\b', '1'), (r'\b8\b', '7'), (r'\bif (?!let)', 'if false && '), (r'\bif (?!let)', 'if true || '), (r'\bsome\b', 'none')]
def mutants(path):
    t = open(path).read()
    cut = t.find('#[cfg(test)]'); body = t if cut < 0 else t[:cut]
    pos = 0
    for ln, line in enumerate(body.split('\n')):
        st = line.strip()
        if not st or st.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'declare_id', 'pub const', 'const')) and not re.search('const .*=', st): pos += len(line) + 1; continue
        if st.startswith('//') or st.startswith('#') or 'msg!' in st: pos += len(line) + 1; continue
        for a, b in SUBS:
            for m in re.finditer(a, line):
                yield ln + 1, st, t[:pos + m.start()] + b + t[pos + m.end():], f'{a}->{b}'
        if st.endswith(';') and not st.startswith(('let', 'use', 'pub', 'return', 'type')) and line.count('(') == line.count(')') and not st.startswith((')', '}', ']')):
            yield ln + 1, st, t[:pos] + t[pos + len(line):], 'delete'
        if st.startswith('require!('):
            # the condition becomes true
            i = t.index('require!(', pos) + len('require!('); d = 0; j = i
            while not (d == 0 and t[j] == ','):
                if t[j] in '([{': d += 1
                if t[j] in ')]}': d -= 1
                j += 1
            yield ln + 1, st, t[:i] + 'true || ' + '(' + t[i:j].strip() + ')' + t[j:], 'require'
        pos += len(line) + 1
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else '.'
    limit = int(os.environ.get('LIMIT', '1000000'))
    six = os.environ.get('PERMILLE', '50')
    allm = []
    files = sh("git -C /repo ls-files '*.rs'").stdout.split()
    done = set()
    if os.path.exists(out):
        for l in open(out): done.add(tuple(json.loads(l)['key']))
    for f in files:
        if '/tests/' in f or not re.search(rx, f): continue
        for pat, checks in FILES:
            if re.fullmatch(pat, f):
                for ln, st, new, op in mutants('/repo/' + f): allm.append((f, ln, st, new, op, checks))
                break
    random.Random(seed).shuffle(allm)
    allm = [m for m in allm if (m[0], m[1], m[4], hash_(m[3])) not in done][:limit]
    print(len(allm), 'mutants', flush=True)
    q = queue.Queue(); [q.put(m) for m in allm]
    lock = threading.Lock()
    def worker(i):
        d = f'/tmp/mu/{i}'
        if not os.path.isdir(d):
            os.makedirs(d)
            sh(f'git clone -q /repo {d}/repo && mkdir -p {d}/verif && cp -a {SRC}/check.sh {SRC}/harness {SRC}/KNOWN_FINDINGS.txt {SRC}/.build {SRC}/js {d}/verif/')
        else:
            sh(f'git -C {d}/repo checkout -q -- . && git -C {d}/repo pull -q; cp -a {SRC}/check.sh {SRC}/harness {SRC}/KNOWN_FINDINGS.txt {SRC}/js {d}/verif/')
        cores = os.environ.get('CORES', '2'); c0 = int(cores) * i % 8
        def run(cmd): return sh(f"nice -n 19 unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && taskset -c {c0}-{c0+int(cores)-1} {cmd}'")
        while True:
            try: f, ln, st, new, op, checks = q.get_nowait()
            except queue.Empty: return
            p = f'{d}/repo/{f}'; old = open(p).read(); open(p, 'w').write(new)
            r = run('./check.sh --build')
            res = {'key': [f, ln, op, hash_(new)], 'line': st}
            if r.returncode: res['status'] = 'nobuild'
            else:
                res['caught'] = []; res['other'] = []
                for c in checks:
                    r = run(f'env VP_EVIDENCE=/tmp/mu/{i}/ev VP_PERMILLE={six} timeout 600 ./check.sh {c}')
                    if r.returncode == 1:
                        res['caught'].append(c)
                        if os.environ.get('FIRST'): break
                    elif r.returncode: res['other'].append((c, r.returncode))
                res['status'] = 'caught' if res['caught'] else 'SURVIVED'
            open(p, 'w').write(old)
            with lock:
                open(out, 'a').write(json.dumps(res) + '\n')
                print(res['status'], f, ln, op, '|', st[:90], '|', ' '.join(res.get('caught', [])), res.get('other') or '', flush=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def hash_(s):
    import hashlib; return hashlib.sha1(s.encode()).hexdigest()[:12]
main()
