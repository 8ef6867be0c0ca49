#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decides one property from /repo's current source"""
import sys, os, json, time, argparse, importlib, multiprocessing
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine')); sys.path.insert(0, os.path.join(ROOT, 'rules'))
import facts as factsmod

class Report:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time(); self.viol = []; self.known = []; self.cov = {}; self.oblig = 0; self.disch = 0; self.undecided = []; self.level = 'other'; self.rule = ''
    def violation(self, key, text):
        """key: stable identity (no line numbers)"""
        for k in KNOWN:
            if k.get('status') == 'open' and k['property'] == self.prop and (k['key'] == key or k['key'].endswith('/*') and key.startswith(k['key'][:-1])):
                if k not in self.known: self.known.append(k)
                return
        self.viol.append((key, text))
    def finish(self):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.prop + '.report.txt')
        with open(path, 'w') as f:
            for k, t in self.viol: f.write('VIOLATION of %s [%s]\n%s\n\n' % (self.prop, k, t))
            for k in self.known: f.write('KNOWN %s\n' % json.dumps(k))
            for u in self.undecided: f.write('undecided: %s\n' % u)
        cov = dict(self.cov); cov.setdefault('obligations', self.oblig); cov.setdefault('discharged', self.disch)
        cov['undecided'] = len(self.undecided); cov['undecided_list'] = self.undecided[:40]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for k, t in self.viol[:12]:
            print('--- %s\n%s' % (k, t))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1fs' % (self.prop, self.oblig, self.disch, len(self.undecided), len(self.viol), time.time() - self.t0))
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, path)); return 1
        return 0

KNOWN = []
def load_known():
    p = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(p):
        with open(p) as f: KNOWN.extend(json.load(f)['findings'])

_F = {}
def _init(path):
    with open(path) as f: _F['f'] = json.load(f)
def _work(a):
    import analyse
    name, unroll, steps = a
    fn = [f for f in _F['f']['fns'] if f['path'] == name][0]
    h, m = analyse.run_one(_F['f'], fn, unroll, steps)
    bs = sorted({(lambda x: '%s (%s)' % (x['path'], x['span'].replace(factsmod.REPO + '/', '')) if factsmod.REPO + '/' in x['span'] else x['path'])(_F['f']['bodies'][b]) for b in h.bodies})
    return {'name': h.name, 'unroll': unroll, 'obls': [(o.kind, o.status, o.site, o.detail, o.stack) for o in h.obls], 'ends': [(k, str(i)[:300] if i is not None else None) for k, i in h.ends], 'error': h.error, 'steps': h.steps, 'bodies': bs, 'models': sorted(h.models), 'unmodelled': sorted(h.unmodelled), 'secs': h.secs}

def prefetch(parts):
    """exports the facts of several witness crates side by side"""
    def one(p):
        wid, _, _, _, debug, target = (tuple(p) + (None, None, None, None))[:6]
        try: factsmod.export(wid, debug=bool(debug), target=target)
        except Exception: pass      # reported by contracts()
    todo = {(p[0], bool((tuple(p) + (None,) * 4)[4]), (tuple(p) + (None,) * 4)[5]): p for p in parts}
    if len(todo) > 1:
        from concurrent.futures import ThreadPoolExecutor
        factsmod.driver()
        with ThreadPoolExecutor(min(4, len(todo))) as ex: list(ex.map(one, todo.values()))

def contracts(rep, wid, tier, only=None, kinds=None, debug=False, target=None):
    """abstract interpretation of every contract function of witness crate w_<wid>"""
    import analyse
    try: path = factsmod.export(wid, debug=debug, target=target)
    except factsmod.BuildError as e:
        rep.violation('contracts/%s does not type-check' % wid, 'The contract functions of w_%s do not type-check against the current source%s:\n%s' % (wid, ' for ' + target if target else '', e)); return
    with open(path) as f: F = json.load(f)
    rs = [f['path'] for f in analyse.roots(F, 'w_' + wid)]
    if only: rs = [r for r in rs if only(r)]
    res = analysed(path, rs, tier)
    judge(rep, wid, res, rs, kinds, target)
    return res

def analysed(path, rs, tier):
    steps = 60000 if tier == 'quick' else 400000
    jobs = [(r, 3 if tier == 'quick' else 5, steps) for r in rs] + ([(r, 0, steps) for r in rs] if SUMMARIES else [])
    with multiprocessing.Pool(min(8, os.cpu_count() or 2), initializer=_init, initargs=(path,)) as pool:
        return pool.map(_work, jobs, chunksize=1)

def versus(rep, wid, debug, tier, only=None):
    """what a contract demands holds with debug assertions if, and only if, it holds without them"""
    import analyse
    try: path = factsmod.export(wid)
    except factsmod.BuildError as e:
        rep.violation('contracts/%s does not type-check in release' % wid, str(e)); return
    with open(path) as f: F = json.load(f)
    rs = [f['path'] for f in analyse.roots(F, 'w_' + wid)]
    if only: rs = [r for r in rs if only(r)]
    def table(res):
        t = {}
        for r in res:
            for kind, status, site, detail, stack in r['obls']: t.setdefault((r['name'], kind), {}).setdefault(status, (site, detail, stack))
        return t
    a, b = table(debug), table(analysed(path, rs, tier))
    for h, kind in sorted(set(a) & set(b)):
        for x, y, how in ((a, b, 'with debug assertions only'), (b, a, 'without debug assertions only')):
            rep.oblig += 1
            if 'fail' in x[h, kind] and set(y[h, kind]) == {'ok'}:
                site, detail, stack = x[h, kind]['fail']
                rep.violation('%s/%s/%s' % (h, kind, how), 'contract  w_%s::%s\nrule      what holds in one kind of build holds in the other: fails %s: %s\nat        %s:%s (%s)\npath      %s\nbecause   %s' % (wid, h, how, kind, site['file'], site['line'], site['fn'], ' > '.join(stack), detail[:1500]))
            else: rep.disch += 1
    rep.cov['compared_builds'] = rep.cov.get('compared_builds', 0) + len(set(a) & set(b))

SUMMARIES = True
def judge(rep, wid, res, rs, want=None, target=None):
    bodies = set(); models = set(); unm = set(); kinds = {}; ok = {}
    per = {}
    for r in res:
        bodies.update(r['bodies']); models.update(r['models']); unm.update(r['unmodelled'])
        h = r['name']; per.setdefault(h, {'ok': 0, 'fail': 0, 'undecided': 0})
        if r['error']: rep.undecided.append('%s (%s): %s' % (h, 'peeled' if r['unroll'] else 'summarised', r['error'].strip().split('\n')[-1][:200]))
        for k, i in r['ends']:
            if k == 'unsupported': rep.undecided.append('%s: %s' % (h, i))
        if not r['error'] and not any(k in ('ret', 'panic', 'violated') for k, i in r['ends']): rep.undecided.append('%s: no path was followed to its end' % h)
        if not r['unroll']: per[h]['loops'] = 'first iterations only' if r['error'] or any(k == 'unsupported' for k, i in r['ends']) else 'any number of iterations'
        seen = set()
        for kind, status, site, detail, stack in r['obls']:
            if want and not want(kind): continue
            rep.oblig += 1; kinds[kind] = kinds.get(kind, 0) + 1; per[h][status] += 1
            if status == 'ok': rep.disch += 1; continue
            key = '%s/%s/%s%s' % (h, kind, site['fn'], ' for ' + target if target else '')
            if key in seen: continue
            seen.add(key)
            if status == 'undecided': rep.undecided.append('%s: %s' % (key, detail[:200]))
            else:
                rep.violation(key, 'contract  w_%s::%s\nrule      %s\nat        %s:%s (%s)\npath      %s\nbecause   %s' % (wid, h, kind, site['file'], site['line'], site['fn'], ' > '.join(stack), detail[:1500]))
    c = rep.cov
    c['contracts'] = c.get('contracts', 0) + len(rs)
    c.setdefault('analysed_functions', []); c['analysed_functions'] = sorted(set(c['analysed_functions']) | {b for b in bodies if '(oct' in b})
    c['functions'] = c.get('functions', 0) + len(bodies)
    c['paths'] = c.get('paths', 0) + sum(len(r['ends']) for r in res)
    c['rules'] = {**c.get('rules', {}), **kinds}
    c['contract_results'] = {**c.get('contract_results', {}), **per}
    c['library_models'] = sorted(set(c.get('library_models', [])) | models)
    c['unmodelled'] = sorted(set(c.get('unmodelled', [])) | unm)

def floor(rep, what, have, least):
    rep.cov.setdefault('floors', {})[what] = {'have': have, 'least': least}
    if have < least: rep.violation('floor/' + what, 'only %d %s were found, at least %d are expected: the anchors of this property are gone' % (have, what, least))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    load_known()
    import props
    rep = Report(a.prop, a.tier)
    props.CHECKS[a.prop](rep, a.tier)
    return rep.finish()

if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
