#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from specs (dicts: id, property, needs, breaks, edits [(file, old, new)], main, kit).
Each change is confirmed in a scratch copy of /repo: it has to build, pass the stable tests, and make the demo fail."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def scratch():
    if not os.path.isdir(SC):
        os.makedirs('/tmp/sc', exist_ok=True); sh(f'cp -a /repo {SC}')
    sh(f'git -C {SC} checkout -q -- . && git -C {SC} fetch -q /repo HEAD && git -C {SC} reset -q --hard FETCH_HEAD')
    os.makedirs('/tmp/sc/vp', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('cd /repo', f'cd {SC}')
        open('/tmp/sc/vp/' + f, 'w').write(t)
DEPS = {
 'program': 'asset-program = { path = "@R@/programs/asset/program" }',
 'types': 'nifty-asset-types = { path = "@R@/programs/asset/types" }',
 'client': 'nifty-asset = { path = "@R@/clients/rust/asset", features = ["serde"] }',
 'bridge-client': 'nifty-bridge = { path = "@R@/clients/rust/bridge" }',
 'interface': 'nifty-asset-interface = { path = "@R@/programs/asset/interface" }',
 'proxy': 'proxy-program = { path = "@R@/programs/proxy" }',
 'bridge': 'bridge-program = { path = "@R@/programs/bridge" }',
 'idl': 'solana-include-idl = { path = "@R@/include-idl", features = ["shrink", "parse"] }',
 'nitrate': 'nitrate-program = "0.1.0"',
 'solana': 'solana-program = "~1.16"',
 'borsh': 'borsh = "^0.10"',
 'json': 'serde_json = "1"',
 'flate2': 'flate2 = "1"',
 'mpl': 'mpl-token-metadata = "*"',
}
def main():
    scratch()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for spec in sys.argv[1:]:
        ns = {}; exec(open(spec).read(), ns)
        for s in ns['SEEDS']:
            d = os.path.join(ROOT, 'seeded', s['id'])
            if os.path.exists(os.path.join(d, 'meta.json')) and os.environ.get('FORCE') != s['id']:
                continue
            sh(f'git -C {SC} checkout -q -- .')
            for f, old, new in s['edits']:
                p = os.path.join(SC, f); t = open(p).read()
                n = s.get('count', 1)
                assert t.count(old) == n, (s['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = sh(f'git -C {SC} diff').stdout
            # lines removed have to be the original repository's
            for f in {e[0] for e in s['edits']}:
                orig = set(l.strip() for l in sh(f'git -C {SC} show 086fe61:{f}').stdout.splitlines())
                fd = sh(f'git -C {SC} diff {f}').stdout
                gone = [l[1:].strip() for l in fd.splitlines() if l.startswith('-') and not l.startswith('---')]
                if gone and not any(l in orig for l in gone if len(l) > 3): print(s['id'], 'WARNING removed lines not original', gone)
            os.makedirs(d + '/src', exist_ok=True)
            kit = ROOT + '/tools/seedkit'
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/src/main.rs', 'w').write(s['main'].lstrip())
            shutil.copy(f"{kit}/demo-{s.get('kit','program')}.sh", d + '/demo.sh')
            shutil.copytree(kit + '/vendor-nitrate', d + '/vendor-nitrate', dirs_exist_ok=True)
            for m in ('rt', 'cpi'):
                if f'mod {m};' in s['main']: shutil.copy(f'{kit}/src/{m}.rs', f'{d}/src/{m}.rs')
            if s.get('kit', 'program') == 'program':
                shutil.copy(kit + '/Cargo.lock', d)
            else:
                shutil.copy(kit + '/Cargo-lib.lock', d + '/Cargo.lock')
                with open(d + '/deps.toml', 'w') as f:
                    f.write('[dependencies]\n')
                    for x in s['deps']: f.write(DEPS[x] + '\n')
            ok = True
            r = sh(f'bash {d}/demo.sh', cwd=SC)
            if r.returncode == 0: print(s['id'], 'demo passes WITH the patch'); ok = False
            out = r.stdout[-300:] + r.stderr[-300:]
            r = sh('bash /tmp/sc/vp/build.sh')
            if r.returncode: print(s['id'], 'does not build', r.stderr[-800:]); ok = False
            r = sh('bash /tmp/sc/vp/test.sh /tmp/sc/out.json')
            res = json.load(open('/tmp/sc/out.json'))
            passed = set(res.get('passed', []))
            if stable - passed: print(s['id'], 'tests fail', stable - passed); ok = False
            sh(f'git -C {SC} checkout -q -- .')
            r = sh(f'bash {d}/demo.sh', cwd=SC)
            if r.returncode: print(s['id'], 'demo fails WITHOUT the patch', r.stdout[-300:], r.stderr[-500:]); ok = False
            if ok:
                json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                print(s['id'], 'ok |', out.strip().splitlines()[-1][:150] if out.strip() else '')
            sys.stdout.flush()
main()
