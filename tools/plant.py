#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies: plant.py SPEC.py [ids...]
SPEC.py defines BUGS: list of dicts id, property, edits [(file, old, new)], needs, breaks, deps {crate: path}, main (Rust).
Writes /verif/seeded/<id> when: it builds, the 250 stable tests pass, demo is 0 on the clean tree and non-zero with it.
"""
import json, os, subprocess, sys, shutil
S = '/tmp/plant'
DEMO = '''#!/bin/bash
# Builds the small program main.rs beside this file against the working tree in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
sed "s|REPO|$repo|g" "$here/manifest.toml" > "$tmp/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 9
cargo build --offline -q || exit 8
timeout 200 "$tmp/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    if not os.path.isdir(S + '/repo'):
        os.makedirs(S, exist_ok=True)
        sh(f'cp -a /repo {S}/repo && mkdir -p {S}/vp && cp /opt/vp/* {S}/vp/')
        for f in os.listdir(S + '/vp'):
            p = f'{S}/vp/{f}'
            try: t = open(p).read()
            except Exception: continue
            open(p, 'w').write(t.replace('/repo', S + '/repo').replace('/opt/vp/', S + '/vp/'))
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'git -C {S}/repo checkout -q -- . && git -C {S}/repo clean -fdq && git -C {S}/repo fetch -q /repo HEAD && git -C {S}/repo checkout -q --detach {head}')
    assert sh(f'git -C {S}/repo rev-parse HEAD').stdout.strip() == head
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    prep()
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        d = f'/verif/seeded/{b["id"]}'
        if os.path.isdir(d) and not want: continue
        sh(f'git -C {S}/repo checkout -q -- .')
        ok = True
        for f, o, n in b['edits']:
            p = f'{S}/repo/{f}'; t = open(p).read()
            if t.count(o) != 1: print(b['id'], 'EDIT', f, t.count(o), repr(o)[:60]); ok = False; break
            open(p, 'w').write(t.replace(o, n))
        if not ok: continue
        w = f'{S}/d/{b["id"]}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        open(w + '/patch.diff', 'w').write(sh(f'git -C {S}/repo diff').stdout)
        if 'demo' in b: open(w + '/demo.sh', 'w').write(b['demo'])
        else:
            open(w + '/demo.sh', 'w').write(DEMO)
            open(w + '/main.rs', 'w').write(b['main'].lstrip())
            m = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\n'
            for c, q in b['deps'].items():
                m += f'{c} = "{q[1:]}"\n' if q[0] == '*' else f'{c} = {{ path = "REPO/{q}" }}\n' if isinstance(q, str) else f'{c} = {{ path = "REPO/{q[0]}", {q[1]} }}\n'
            open(w + '/manifest.toml', 'w').write(m)
        root = sh(f'git -C {S}/repo rev-list --max-parents=0 HEAD').stdout.split()[0][:7]
        for f, o, n in b['edits']:
            new = sh(f'git -C {S}/repo log --format=%h {os.environ.get("VP_BASE", "")}..HEAD -- {f}').stdout.split() if os.environ.get("VP_BASE") else []
            bl = sh(f'git -C {S}/repo diff -U0 -- {f}').stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', bl, re.M):
                a, k = int(m[1]), int(m[2] or 1)
                if not k: continue
                for l in sh(f'git -C {S}/repo blame -s -L {a},{a+k-1} HEAD -- {f}').stdout.splitlines():
                    if l.lstrip('^')[:7] in [h[:7] for h in new]: print(b['id'], 'WARNING: changes a line of mine', l[:100])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(w + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {S}/vp/build.sh')
        if r.returncode: print(b['id'], 'BUILD', r.stdout[-600:]); continue
        r = sh(f'bash {S}/vp/test.sh {S}/out.json')
        try: got = json.load(open(S + '/out.json'))
        except Exception as e: print(b['id'], 'TESTOUT', e, r.stdout[-300:]); continue
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base['stable']
        passed = got.get('passed', got) if isinstance(got, dict) else got
        miss = [n for n in names if n not in passed] if isinstance(passed, list) else [n for n in names if passed.get(n) not in ('passed', 'ok', True, 'pass')]
        if miss: print(b['id'], 'TESTS FAIL', len(miss), miss[:4]); continue
        r1 = sh(f'bash {w}/demo.sh', cwd=S + '/repo')
        sh(f'git -C {S}/repo checkout -q -- .')
        r0 = sh(f'bash {w}/demo.sh', cwd=S + '/repo')
        if r0.returncode != 0 or r1.returncode in (0, 8, 9): print(b['id'], 'DEMO clean', r0.returncode, 'bug', r1.returncode, r0.stdout[-400:], r1.stdout[-300:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(w, d)
        print(b['id'], 'KEPT', len(names), 'tests;', r1.stdout.strip()[-100:])
main()
