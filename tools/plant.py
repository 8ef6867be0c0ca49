"""Plants changes: python3 tools/plant.py FILE.py  (a list PLANTS of dicts id, property, edits [(file, old, new)], demo (main.rs), needs, what).
Each is kept in seeded/<id>/ only if it compiles, passes the existing tests and its demonstration tells the trees apart.
With -k: also run the named checks against it (in /repo, undone afterwards)."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the demonstration holds; run from the repository's root
set -u
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf -- "$D"' EXIT
mkdir -p "$D/src" || exit 2
cp "$H/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
oct = { path = "$R/oct" }
T
cd "$D" || exit 2
CARGO_TARGET_DIR="$D/target" timeout 250 cargo run --offline -q 2>"$D/err"
E=$?
[ $E = 0 ] || tail -5 "$D/err"
exit $E
'''
def sh(cmd, cwd=None, timeout=900): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
# a program that must be refused, with one of these errors
REFUSE = '''CARGO_TARGET_DIR="$D/target" timeout 250 cargo check --offline -q 2>"$D/err"
E=$?
[ $E = 0 ] && { echo "the program is accepted"; exit 1; }
grep -qE '^error(\\[(CODES)\\])?:' "$D/err" && grep -qE '\\[(CODES)\\]' "$D/err" && exit 0
tail -5 "$D/err"
exit 1
'''
def demo_sh(p):
    s = DEMO
    if p.get('features') is not None: s = s.replace('oct = { path = "$R/oct" }', 'oct = { path = "$R/oct", default-features = false, features = [%s] }' % ', '.join('"%s"' % f for f in p['features']))
    if p.get('release'): s = s.replace('cargo run --offline -q', 'cargo run --release --offline -q')
    if p.get('miri'):   # the program runs on another platform, in the interpreter
        i = s.index('CARGO_TARGET_DIR='); s = s[:i] + 'export XDG_CACHE_HOME="$D/cache"\n' + s[i:].replace('cargo run --offline -q', 'cargo +nightly miri run --offline -q --target ' + p['miri']).replace('timeout 250', 'timeout 285')
    if p.get('platform'):   # the program is accepted on another platform
        i = s.index('CARGO_TARGET_DIR='); s = s[:i] + s[i:].replace('cargo run --offline -q', 'cargo +nightly check --lib --offline -q -Zbuild-std=core,alloc --target ' + p['platform']).replace('timeout 250', 'timeout 285')
        s = s.replace('src/main.rs', 'src/lib.rs')
    if p.get('refuse'): i = s.index('CARGO_TARGET_DIR='); s = s[:i] + REFUSE.replace('CODES', '|'.join(p['refuse']))
    return s
WORK = '/tmp/plant'
def fresh():
    if not os.path.exists(WORK): sh('cp -a /repo /tmp/plant')
    sh('git checkout -q -- .', WORK)
def original(f, old):
    """does the edit touch a line of the original repository?"""
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()[0]
    s = open(os.path.join('/repo', f)).read(); i = s.index(old); a = s.count('\n', 0, i) + 1; b = a + old.rstrip('\n').count('\n')
    out = sh('git blame -l -s -L %d,%d %s' % (a, b, f), '/repo').stdout.split('\n')
    return any(l.lstrip('^')[:39] == base[:39] for l in out if l)
def one(p):
    d = os.path.join(ROOT, 'seeded', p['id']); fresh()
    for f, old, new in p['edits']:
        path = os.path.join(WORK, f); s = open(path).read()
        if s.count(old) != 1: return 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
        open(path, 'w').write(s.replace(old, new))
    if not all(original(f, old) for f, old, new in p['edits']): return 'touches lines of my own'
    diff = sh('git diff', WORK).stdout
    tmp = tempfile.mkdtemp()
    open(tmp + '/demo.rs', 'w').write(p['demo']); open(tmp + '/demo.sh', 'w').write(demo_sh(p)); os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/patch.diff', 'w').write(diff)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['what']}, open(tmp + '/meta.json', 'w'), indent=1)
    t = sh('. /opt/vp/env.sh; cargo test --workspace --lib --bins --tests --offline 2>&1 && RUSTUP_TOOLCHAIN=nightly cargo test --workspace --doc --offline --target-dir /tmp/plant/target/nightly 2>&1', WORK)
    if t.returncode != 0: return 'tests fail with it: ' + ' '.join(l for l in t.stdout.split('\n') if 'panicked' in l or l.startswith('error'))[:300]
    r = sh('bash %s/demo.sh' % tmp, WORK)
    if r.returncode == 0: return 'the demonstration passes with the change'
    msg = r.stdout[-300:]
    sh('git checkout -q -- .', WORK)
    r = sh('bash %s/demo.sh' % tmp, WORK)
    if r.returncode != 0: return 'the demonstration fails without the change:\n' + r.stdout[-1500:]
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(tmp): shutil.copy(os.path.join(tmp, f), d)
    shutil.rmtree(tmp)
    return 'kept   (%s)' % ' '.join(msg.split())[-160:]
def catch(id, checks):
    patch = os.path.join(ROOT, 'seeded', id, 'patch.diff'); out = []
    r = sh('git apply %s' % patch, '/repo')
    if r.returncode: return 'does not apply'
    try:
        for c in checks:
            r = sh('python3 check.py %s --tier quick' % c, ROOT)
            out.append('%s:%s' % (c, {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, r.returncode)))
    finally: sh('git checkout -q -- .', '/repo')
    return ' '.join(out)
if __name__ == '__main__':
    ns = {}
    if sys.argv[1] == '-c':   # run checks against kept plants
        sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + '/rules'); import props
        allc = '-a' in sys.argv; ids = [a for a in sys.argv[2:] if a[0] != '-'] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
        for i in ids:
            meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
            print('%-28s %s' % (i, catch(i, list(props.CHECKS) if allc else [meta['property']])), flush=True)
        sys.exit()
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for p in ns['PLANTS']:
        if only and p['id'] not in only: continue
        print('%-28s %s' % (p['id'], one(p)), flush=True)
