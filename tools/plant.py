#!/usr/bin/env python3
"""Makes and confirms planted changes.

plant.py SPEC.py [id...]: SPEC.py defines PLANTS = [dict(id, property, needs, breaks,
edits=[(file under src, old, new)...], demo=<body of fn main>, kind='run'|'nocompile'|'inside',
...)].  For each: a scratch copy of /repo gets the edits, has to build, pass every stable
test, fail the demonstration; the demonstration has to pass on /repo.  What passes goes to
/verif/seeded/<id>/.  kind 'nocompile': the program must be rejected by the compiler.
"""
import sys, os, subprocess, shutil, json, importlib.util, tempfile, concurrent.futures as cf

DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
certified-vars = { path = "$repo" }
candid = "0.7"
serde = "1"
serde_cbor = "0.11.2"
sha2 = "0.9.8"
[workspace]
EOF
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
'''
RUN = '''cargo build --offline -q 2>"$work/err" || { tail -n 20 "$work/err"; exit 3; }
timeout 200 "$work/target/debug/demo"
'''
NOC = '''# The sound program next to it must build, the unsound one must not.
cargo build --offline -q 2>"$work/err" || { tail -n 20 "$work/err"; exit 3; }
cp "$here/bad.rs" "$work/src/main.rs"
if cargo build --offline -q 2>"$work/err"; then
  echo "the compiler accepts bad.rs"; exit 1
fi
grep -q 'error\\[E0[0-9]*\\]' "$work/err" || { tail -n 20 "$work/err"; exit 3; }
exit 0
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def one(p):
    out = os.environ.get('OUT', '/verif/seeded') + '/' + p['id']
    tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        repo = tmp + '/repo'
        sh('cp -a /repo %s' % repo, '/')
        for f, o, n in p['edits']:
            q = repo + '/src/' + f
            t = open(q).read()
            if t.count(o) < 1:
                return p['id'], 'EDIT FAILED %r' % o[:60]
            open(q, 'w').write(t.replace(o, n, 1))
        diff = sh('git diff', repo).stdout
        d = tmp + '/d'
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        head = p.get('head', 'use certified_vars::*;\n')
        open(d + '/main.rs', 'w').write(head + 'fn main() {\n' + p['demo'] + '\n}\n' + p.get('tail', ''))
        if p.get('kind') == 'nocompile':
            open(d + '/bad.rs', 'w').write(head + 'fn main() {\n' + p['bad'] + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO + (NOC if p.get('kind') == 'nocompile' else RUN))
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        # the stable tests, with build.sh's settings but in the copy
        env = open('/opt/vp/env.sh').read().replace('cd /repo', 'cd ' + repo)
        open(tmp + '/env.sh', 'w').write(env)
        r = sh('. %s/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1' % tmp, repo)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
        docs = any(l.startswith('test src/') and 'seq.rs' in l and l.rstrip().endswith('ok') for l in r.stdout.splitlines())
        miss = [t for t in base if not (docs if t.startswith('doc:') else any(t.endswith('::' + x) for x in ok))]
        if 'error: could not compile' in r.stdout:
            return p['id'], 'DOES NOT BUILD ' + r.stdout[-1500:]
        if miss:
            return p['id'], 'TESTS CATCH IT: %s' % miss[:6]
        a = sh('bash %s/demo.sh' % d, '/repo', timeout=400)
        b = sh('bash %s/demo.sh' % d, repo, timeout=400)
        if a.returncode != 0:
            return p['id'], 'DEMO FAILS ON CLEAN rc=%d %s' % (a.returncode, (a.stdout + a.stderr)[-1500:])
        if b.returncode in (0, 3, 2):
            return p['id'], 'DEMO DOES NOT FAIL WITH PATCH rc=%d %s' % (b.returncode, (b.stdout + b.stderr)[-800:])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return p['id'], 'ok rc=%d %s' % (b.returncode, (b.stdout + b.stderr).strip()[-160:].replace('\n', ' '))
    except subprocess.TimeoutExpired:
        return p['id'], 'TIMEOUT'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    s = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    xs = [p for p in m.PLANTS if not sys.argv[2:] or p['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for i, r in ex.map(one, xs):
            print(i, '::', r[:1800], flush=True)
