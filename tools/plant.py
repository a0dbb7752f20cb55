#!/usr/bin/env python3
"""Turn plant specs (python files defining P, a list of dicts) into /verif/seeded/<id>/ after confirming, in a scratch copy
(/tmp/seed/repo), that each change builds, passes the stable tests and is shown by its demonstration only when applied.
usage: plant.py SPEC.py [ID...]"""
import sys, os, json, subprocess, shutil, textwrap
REPO = '/tmp/seed/repo'
DEMO = '''#!/bin/bash
# Runs in the repository's root after its build: exit 0 when the behaviour is right, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[profile.dev]
opt-level = 1
debug = false
[workspace]
EOF
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$t/target}"
cd "$t" && cargo build --offline -q || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
DEPS = {
 'de': 'dynamic_expressions = { path = "$repo/dynamic_expressions" }\nndarray = "0.17"',
 'sr': 'dynamic_expressions = { path = "$repo/dynamic_expressions" }\nsymbolic_regression = { path = "$repo/symbolic_regression", features = ["bench", "serde", "serde_json"] }\nndarray = "0.17"\nfastrand = "2.3"\nserde_json = "1"\nrayon = "1"',
}
# the web session, compiled natively against the stand-ins for the JavaScript side that lie beside the demonstration
WASM = DEMO.replace('cat > "$t/Cargo.toml" <<EOF', '''cp -r "$here/stubs" "$t/stubs"
mkdir -p "$t/session"
cat > "$t/session/Cargo.toml" <<EOF
[package]
name = "symbolic_regression_wasm"
version = "0.0.0"
edition = "2021"
[lib]
path = "$repo/web/wasm/src/lib.rs"
[features]
default = ["panic-hook"]
panic-hook = []
[dependencies]
wasm-bindgen = { path = "../stubs/wasm-bindgen" }
serde-wasm-bindgen = { path = "../stubs/serde-wasm-bindgen" }
console_error_panic_hook = { path = "../stubs/console_error_panic_hook" }
serde = { version = "1", features = ["derive"] }
csv = "1"
ndarray = "0.17"
fastrand = "2.3"
symbolic_regression = { path = "$repo/symbolic_regression", default-features = false, features = ["serde"] }
dynamic_expressions = { path = "$repo/dynamic_expressions", default-features = false }
EOF
cat > "$t/Cargo.toml" <<EOF''')
DEPS['wasm'] = 'session = { package = "symbolic_regression_wasm", path = "session" }\nwasm-bindgen = { path = "stubs/wasm-bindgen" }\nserde-wasm-bindgen = { path = "stubs/serde-wasm-bindgen" }\nserde = { version = "1", features = ["derive"] }\nsymbolic_regression = { path = "$repo/symbolic_regression", default-features = false, features = ["serde"] }\ndynamic_expressions = { path = "$repo/dynamic_expressions", default-features = false }\nndarray = "0.17"'
# the web client, bundled from the working tree and run against the small browser that lies beside the demonstration
UI = '''#!/bin/bash
# Runs in the repository's root: exit 0 when the behaviour is right, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
VERIF_REPO=$(pwd) timeout 120 node "$here/main.mjs"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2025-12-19', CARGO_NET_OFFLINE='true')
def reset():
    sh(f'git -C {REPO} checkout -q -- . && git -C {REPO} fetch -q /repo && git -C {REPO} reset -q --hard FETCH_HEAD')
def tests():
    # the same tests as /opt/vp/test.sh runs, in the scratch copy
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd '+REPO).replace('/repo/target', REPO+'/target')
    open('/tmp/seed/test.sh','w').write(s)
    b = open('/opt/vp/build.sh').read().replace('cd /repo', 'cd '+REPO)
    open('/tmp/seed/build.sh','w').write(b)
    r = sh('bash /tmp/seed/build.sh')
    if r.returncode: return 'build: '+r.stdout[-1500:]
    r = sh('bash /tmp/seed/test.sh /tmp/seed/out.json')
    d = json.load(open('/tmp/seed/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    def names(x):
        return set(x.get('passed') or x.get('stable') or [])
    want = names(base); got = names(d)
    miss = sorted(want-got)
    return 'tests: '+', '.join(miss[:5]) if miss else ''
def demo(dst):
    e = dict(ENV, DEMO_TARGET_DIR='/tmp/seed/target')
    return sh(f'bash {dst}/demo.sh', cwd=REPO, env=e)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for p in ns['P']:
        if only and p['id'] not in only: continue
        dst = f"/verif/seeded/{p['id']}"
        reset()
        os.makedirs(dst, exist_ok=True)
        ui = p.get('crate')=='ui'
        open(dst+('/main.mjs' if ui else '/main.rs'),'w').write(textwrap.dedent(p['main']).lstrip())
        open(dst+'/demo.sh','w').write(p.get('demo') or (UI if ui else (WASM if p.get('crate')=='wasm' else DEMO) % DEPS[p.get('crate','de')]))
        if ui: [shutil.copy(f'/verif/harness/ui/{m}.mjs', f'{dst}/{m}.mjs') for m in ('world','dom') if m=='world' or 'dom.mjs' in p['main']]
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(dst+'/meta.json','w'), indent=1)
        if p.get('crate')=='wasm': shutil.copytree('/verif/harness/wasm/stubs', dst+'/stubs', dirs_exist_ok=True)
        ok = True
        r = demo(dst)
        if r.returncode: print(p['id'], 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-2500:]); ok=False
        if ok:
            for f, old, new in p['edits']:
                s = open(f'{REPO}/{f}').read()
                if s.count(old) != 1: print(p['id'], 'EDIT matches', s.count(old), old); ok=False; break
                open(f'{REPO}/{f}','w').write(s.replace(old,new))
        if ok:
            open(dst+'/patch.diff','w').write(sh(f'git -C {REPO} diff').stdout)
            t = tests()
            if t: print(p['id'], 'NOT KEPT', t); ok=False
        if ok:
            r = demo(dst)
            if r.returncode == 0: print(p['id'], 'DEMO PASSES PATCHED', r.stdout[-500:]); ok=False
            elif r.returncode == 3: print(p['id'], 'DEMO BUILD PATCHED', r.stdout[-500:]); ok=False
            else: print(p['id'], 'OK', r.returncode, r.stdout.strip().splitlines()[-1:] )
        if not ok: shutil.rmtree(dst)
        sys.stdout.flush()
    reset()
main()
