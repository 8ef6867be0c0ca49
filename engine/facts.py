"""Builds the MIR fact driver and exports the facts of a witness crate from /repo's current tree."""
import os, sys, subprocess, hashlib, shutil, json, tempfile, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OCT_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')

def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]
def files(d, exts=('.rs', '.toml', '.lock', '.txt')):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out
def driver():
    src = os.path.join(ROOT, 'driver', 'driver.rs')
    out = os.path.join(CACHE, 'driver-' + digest([src]), 'octfacts')
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    lock = open(os.path.join(CACHE, 'driver.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'], check=True, stdout=sys.stderr)
            os.rename(out + '.tmp', out)
    finally: lock.close()
    return out

class BuildError(Exception): pass

def target_sysroot(target):
    """the standard library for another platform, from the sources of the installed toolchain (cargo -Zbuild-std, offline)"""
    v = subprocess.run(['rustc', '+nightly', '-vV'], capture_output=True, text=True, check=True).stdout
    out = os.path.join(CACHE, 'sys-%s-%s' % (target, hashlib.sha256(v.encode()).hexdigest()[:12]))
    if os.path.exists(out): return out
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'sys-%s.lock' % target), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    tmp = tempfile.mkdtemp(prefix='octsys-')
    try:
        if os.path.exists(out): return out
        os.makedirs(os.path.join(tmp, 'src'))
        with open(os.path.join(tmp, 'Cargo.toml'), 'w') as f: f.write('[package]\nname = "sys"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n')
        with open(os.path.join(tmp, 'src', 'lib.rs'), 'w') as f: f.write('#![no_std]\n')
        env = dict(os.environ); env.pop('RUSTFLAGS', None); env.pop('RUSTC_WRAPPER', None)
        env.update(CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-Zbuild-std=' + STD.get(target, 'core,alloc'), '--target', target, '--target-dir', os.path.join(tmp, 't')], cwd=tmp, env=env, capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError('the standard library does not build for %s:\n%s' % (target, p.stderr[-3000:]))
        lib = os.path.join(tmp, 'out', 'lib', 'rustlib', target, 'lib'); os.makedirs(lib)
        for r, ds, fs in os.walk(os.path.join(tmp, 't', target)):
            for f in fs:
                if f.endswith(('.rlib', '.rmeta')): shutil.copy(os.path.join(r, f), lib)
        shutil.copytree(os.path.join(tmp, 'out'), out + '.tmp'); os.rename(out + '.tmp', out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True); lock.close()
    return out
STD = {'s390x-unknown-linux-gnu': 'std,panic_abort', 'i686-unknown-linux-gnu': 'std,panic_abort'}

def export(wid, fresh=False, debug=False, target=None):
    """facts of witness crate w_<wid> -> path of the JSON file (debug: with the debug assertions of oct; target: for that platform)"""
    drv = driver(); crate = os.path.join(ROOT, 'w', wid)
    srcs = files(os.path.join(REPO, 'oct')) + files(os.path.join(REPO, 'oct-macros')) + [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')] + files(crate) + files(os.path.join(ROOT, 'w', 'vrt')) + [os.path.join(ROOT, 'driver', 'driver.rs'), os.path.join(ROOT, 'driver', 'skip.txt')]
    key = digest([s for s in srcs if os.path.exists(s)])
    pre = wid + ('+debug-' if debug else '@' + target + '-' if target else '-'); dst = os.path.join(CACHE, 'facts', '%s%s.json' % (pre, key))
    if os.path.exists(dst) and not fresh: return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    for f in os.listdir(os.path.dirname(dst)):
        if f.startswith(pre): os.unlink(os.path.join(os.path.dirname(dst), f))
    tmp = tempfile.mkdtemp(prefix='octfacts-')
    try:
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), OCTFACTS_SKIP=os.path.join(ROOT, 'driver', 'skip.txt'), OCTFACTS_OUT=tmp, OCTFACTS_CRATES='oct,vrt,w_' + wid, RUSTC_WRAPPER=drv, CARGO_TERM_COLOR='never')
        env.pop('RUSTFLAGS', None); env.pop('OCTFACTS_DEBUG', None)
        if debug: env['OCTFACTS_DEBUG'] = '1'
        if target: env['RUSTFLAGS'] = '--sysroot=' + target_sysroot(target)
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--target-dir', os.path.join(tmp, 't')] + (['--target', target] if target else []), cwd=crate, env=env, capture_output=True, text=True)
        if os.environ.get("SHADOWDBG"): sys.stderr.write(p.stderr[-20000:])
        if p.returncode != 0: raise BuildError(p.stderr[-6000:])
        src = os.path.join(tmp, 'w_%s.json' % wid)
        if not os.path.exists(src): raise BuildError('no facts were exported\n' + p.stderr[-3000:])
        shutil.copy(src, dst + '.tmp'); os.rename(dst + '.tmp', dst)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return dst

if __name__ == '__main__': print(driver())
