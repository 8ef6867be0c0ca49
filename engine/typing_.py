"""Type-level deciding: small programs against the current oct, which the compiler must accept or must refuse."""
import os, sys, json, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
import facts

class Oct:
    """oct, checked (not linked, not run) with one set of features"""
    def __init__(self, tmp, features, target=None):
        self.features = features; self.target = target; self.flags = []; self.err = None; self.rmeta = None; self.warn = ''
        d = os.path.join(tmp, (target or '') + ('f_' + '_'.join(features) if features else 'f_none')); os.makedirs(os.path.join(d, 'src')); self.dir = d
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "user"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\noct = { path = "%s", default-features = false, features = [%s] }\n[workspace]\n' % (os.path.join(facts.REPO, 'oct'), ', '.join('"%s"' % x for x in features)))
        with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f: f.write('#![no_std]\n')
        lock = os.path.join(facts.REPO, 'Cargo.lock')
        if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        env = dict(os.environ); env.pop('RUSTFLAGS', None); env.pop('RUSTC_WRAPPER', None)
        if target:
            self.flags = ['--target', target, '--sysroot', facts.target_sysroot(target)]; env['RUSTFLAGS'] = '--sysroot=' + self.flags[3]
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json', '--target-dir', os.path.join(d, 't')] + self.flags[:2], cwd=d, env=env, capture_output=True, text=True)
        errs = []; self.libs = []
        for l in p.stdout.splitlines():
            if not l.startswith('{'): continue
            j = json.loads(l)
            if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'oct' and 'lib' in j['target']['kind']:
                self.rmeta = [x for x in j['filenames'] if x.endswith('.rmeta')][0]
            if j.get('reason') == 'compiler-artifact':
                for x in j['filenames']: self.libs.append(os.path.dirname(x))
            if j.get('reason') == 'compiler-message' and j['message']['level'] == 'error': errs.append(j['message'].get('rendered') or j['message']['message'])
        if p.returncode or not self.rmeta: self.err = '\n'.join(errs)[:5000] or p.stderr[-3000:]
    def externs(self):
        """the crates that the metadata of oct depends on"""
        p = subprocess.run(['rustc', '+nightly', '-Zls=root', self.rmeta] + self.flags, capture_output=True, text=True)
        return set(re.findall(r'^\s*\d+ (\w+)', p.stdout, re.M)), p.stdout
    def compile(self, name, src):
        """-> list of (code, message, line) of the errors"""
        f = os.path.join(self.dir, name + '.rs')
        with open(f, 'w') as h: h.write(src)
        a = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'p', '--emit', 'metadata=' + f[:-3] + '.rmeta', '--error-format=json', '-Awarnings', '--extern', 'oct=' + self.rmeta]
        for d in sorted(set(self.libs)): a += ['-L', 'dependency=' + d]
        p = subprocess.run(a + self.flags + [f], capture_output=True, text=True)
        out = []
        for l in p.stderr.splitlines():
            if not l.startswith('{'): continue
            j = json.loads(l)
            if j.get('level') == 'error':
                sp = [s['line_start'] for s in j['spans'] if s['is_primary']] or [0]
                x = j['spans'] and [s for s in j['spans'] if s['is_primary']][0]
                ln = sp[0]
                while x and x.get('expansion'): x = x['expansion']['span']; ln = x['line_start'] if x['file_name'] == f else ln
                out.append(((j.get('code') or {}).get('code'), j['message'], ln))
        if p.returncode and not out: out.append((None, p.stderr[-1500:], 0))
        return out

class Item:
    def __init__(self, key, about, ok, bad=()):
        self.key, self.about, self.ok, self.bad = key, about, ok, list(bad)   # bad: [(expected codes, source, what it would allow)]

def decide(rep, items, prelude, features=('alloc', 'proc-macro', 'std'), oct=None):
    tmp = None
    if oct is None:
        tmp = tempfile.mkdtemp(prefix='octtypes-'); oct = Oct(tmp, list(features))
    try:
        if oct.err:
            rep.violation('oct does not type-check with features [%s]' % ','.join(oct.features), oct.err); return
        n = len(prelude.splitlines())
        def one(job):
            i, it, k = job
            src = it.ok if k is None else it.bad[k][1]
            return it, k, oct.compile('i%d_%s' % (i, 'ok' if k is None else k), prelude + '\n' + src + '\n')
        jobs = []
        for i, it in enumerate(items):
            if it.ok is not None: jobs.append((i, it, None))
            jobs += [(i, it, k) for k in range(len(it.bad))]
        seen = {}
        with ThreadPoolExecutor(8) as ex:
            for it, k, errs in ex.map(one, jobs): seen[(it.key, k)] = errs
        acc = ref = 0
        for it in items:
            good = it.ok is None or not seen[(it.key, None)]
            if it.ok is not None:
                rep.oblig += 1
                if good: rep.disch += 1; acc += 1
                else: rep.violation('%s/accepted' % it.key, '%s\nThis program must be accepted by the compiler, but is refused:\n%s\n%s' % (it.about, it.ok, '\n'.join('  error[%s]: %s' % e[:2] for e in seen[(it.key, None)][:4])))
            for k, (codes, src, what) in enumerate(it.bad):
                rep.oblig += 1; errs = seen[(it.key, k)]
                if not errs: rep.violation('%s/refused %d' % (it.key, k), '%s\nThis program must be refused by the compiler (%s), but is accepted: %s\n%s' % (it.about, '/'.join(str(c) for c in codes), what, src)); continue
                got = {e[0] for e in errs}
                if good and not got & set(codes): rep.undecided.append('%s/%d: refused with %s where %s was expected' % (it.key, k, got, codes))
                else: rep.disch += 1; ref += 1
        rep.cov['programs_accepted'] = rep.cov.get('programs_accepted', 0) + acc
        rep.cov['programs_refused'] = rep.cov.get('programs_refused', 0) + ref
        rep.cov.setdefault('items', []).extend(it.key for it in items)
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)
