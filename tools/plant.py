#!/usr/bin/env python3
"""plant.py NAME...: turns /verif/tools/plants/NAME.py into /verif/seeded/NAME, after having
confirmed in a scratch copy of /repo that the change builds, passes the stable tests and makes the
demonstration (and only then) fail.

A plant file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new[, count])] and DEMO (a main.rs)."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO_SH = r'''#!/bin/bash
# Run in the repository: builds main.rs, which lies beside this file, against the crate and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
dir="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xecs = { path = "$repo" }
[workspace]
END
cd "$dir" || exit 9
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --quiet --offline >"$dir/log" 2>&1 || { cat "$dir/log"; exit 8; }
timeout 60 "$dir/target/debug/demo"
'''


def run(cmd, cwd, env=None, t=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def plant(name):
    src = os.path.join(HERE, 'plants', name + '.py')
    ns = {}
    exec(open(src).read(), ns)
    out = os.path.join(SEEDED, name)
    scratch = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    repo = os.path.join(scratch, 'repo')
    try:
        run(['git', 'clone', '-q', '/repo', repo], '/')
        shutil.copy('/repo/Cargo.lock', repo)
        base = open('/opt/vp/BASELINE.json').read()
        blame = {}
        for e in ns['EDITS']:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 1
            p = os.path.join(repo, f)
            s = open(p).read()
            if n == 'first':
                assert old in s, f'{name}: {f}: no {old!r}'
                open(p, 'w').write(s.replace(old, new, 1))
                continue
            assert s.count(old) == n, f'{name}: {f}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], repo).stdout
        # which of the changed lines are the original ones?
        first = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], repo).stdout.strip()
        orig = False
        for f in sorted({e[0] for e in ns['EDITS']}):
            bl = run(['git', 'blame', '-s', '-l', 'HEAD', '--', f], repo).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', run(['git', 'diff', '-U0', '--', f], repo).stdout, re.M):
                a, c = int(m[1]), int(m[2] or 1)
                for i in range(a, a + max(c, 1)):
                    if c and bl[i - 1].startswith('^'):
                        orig = True
        env = {'CARGO_TARGET_DIR': os.path.join(scratch, 'target'), 'CARGO_NET_OFFLINE': 'true'}
        t = run(['cargo', 'test', '--lib', '--offline'], repo, env)
        m = re.search(r'test result: (\w+)\. (\d+) passed; (\d+) failed', t.stdout)
        if not m or m[1] != 'ok':
            print(t.stdout[-3000:])
            return f'{name}: does not build or pass the tests'
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'main.rs'), 'w').write(ns['DEMO'].lstrip('\n'))
        sh = os.path.join(out, 'demo.sh')
        open(sh, 'w').write(DEMO_SH)
        os.chmod(sh, 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        clean = run(['bash', sh], '/repo')
        bad = run(['bash', sh], repo)
        if clean.returncode == 0 and bad.returncode not in (0, 8, 9):
            return f'{name}: ok ({m[2]} tests, original lines {orig}, demo {bad.returncode}: {bad.stdout.strip()[-100:]!r})'
        shutil.rmtree(out)
        return f'{name}: DEMO WRONG clean={clean.returncode} {clean.stdout[-800:]} patched={bad.returncode} {bad.stdout[-800:]}'
    finally:
        shutil.rmtree(scratch)


for n in sys.argv[1:]:
    print(plant(n), flush=True)
