#!/usr/bin/env python3
"""Author's tool for the planted bugs (not used by any check).
  seed.py new FILE.py    FILE defines: id, property, needs, what, edits=[(path, old, new)...], main (demo source)
  seed.py verify ID...   apply, build, tests, demo with/without, the property's check; always restores /repo
"""
import sys,os,subprocess,json,runpy,shutil,time
V='/verif';R='/repo';S=f'{V}/seeded'
DEMO='''#!/bin/bash
# exit 0: the property holds in this scenario; non-zero: it does not. Runs in the repository's root.
set -u
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$T/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" RUSTFLAGS="--cap-lints warn"
cd "$T" && cargo build -q --offline --manifest-path "$T/Cargo.toml" || exit 3
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
'''
TOML='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
coerce = { path = "@REPO@/coerce", features = ["full"] }
%s
tokio = { version = "1.32.0", features = ["full"] }
tokio-stream = "0.1.14"
futures = "0.3.28"
async-trait = "0.1"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
anyhow = "1"
chrono = "0.4"
uuid = { version = "1.1.2", features = ["v4"] }
[profile.dev]
debug = 0
incremental = false
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def clean():
    sh(f'git -C {R} checkout -- .')
def new(f):
    m=runpy.run_path(f); i=m['id']; d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    assert sh(f'git -C {R} status --porcelain').stdout=='' ,'repo dirty'
    try:
        for p,o,n in m['edits']:
            s=open(f'{R}/{p}').read(); assert s.count(o)==1,(p,s.count(o),o); open(f'{R}/{p}','w').write(s.replace(o,n))
        open(f'{d}/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    finally: clean()
    open(f'{d}/demo.sh','w').write(DEMO); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/Cargo.toml.in','w').write(TOML%m.get('deps',''))
    open(f'{d}/main.rs','w').write(m['main'].lstrip())
    json.dump({"property":m['property'],"needs":m['needs'],"what_it_breaks":m['what']},open(f'{d}/meta.json','w'),indent=1)
    return i
def verify(i,checks=True,tests=True):
    d=f'{S}/{i}'; prop=json.load(open(f'{d}/meta.json'))['property']; out=[]
    env=dict(os.environ,DEMO_TARGET='/tmp/seedwork/target')
    assert sh(f'git -C {R} status --porcelain').stdout=='' ,'repo dirty'
    r=sh(f'bash {d}/demo.sh',cwd=R,env=env); 
    out.append(f'demo-clean={r.returncode}')
    if r.returncode: print(r.stdout[-1500:])
    try:
        assert sh(f'git -C {R} apply {d}/patch.diff').returncode==0
        r=sh(f'bash {d}/demo.sh',cwd=R,env=env); out.append(f'demo-bug={r.returncode}')
        if r.returncode in (0,3): print(r.stdout[-1500:])
        if tests:
            b=sh('bash /opt/vp/build.sh'); out.append(f'build={b.returncode}')
            t=sh('bash /opt/vp/test.sh /tmp/seedwork/t.json').stdout.strip().split('\n'); out.append(t[-1])
            if '61 passed' not in t[-1]: print('\n'.join(t[-8:]))
        if checks:
            t0=time.time(); c=sh(f'./check.sh {prop} quick',cwd=V,env=dict(os.environ,VERIF_SEED='1')); out.append(f'check={c.returncode} {time.time()-t0:.0f}s')
            print('\n'.join(l[:300] for l in c.stdout.strip().split('\n')[-4:]))
    finally: clean()
    print(i,prop,*out,flush=True)
if __name__=='__main__':
    a=sys.argv[2:]
    if sys.argv[1]=='new':
        for f in a: verify(new(f))
    elif sys.argv[1]=='create':
        for f in a: print(new(f))
    else:
        nt='--no-tests' in a
        for i in a:
            if not i.startswith('--'): verify(i,tests=not nt)
