"""Runs the contract functions of one witness crate through the abstract interpreter."""
import json, sys, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms, interp, models
from interp import Machine, Unsupported, Fork, Done

class Harness:
    def __init__(self, name): self.name = name; self.obls = []; self.ends = []; self.error = None; self.steps = 0; self.bodies = set(); self.models = set(); self.unmodelled = set(); self.secs = 0

def run_one(facts, fn, unroll=0, max_steps=60000):
    h = Harness(fn['path'].split('::', 1)[1]); t0 = time.time()
    m = Machine(facts, models, max_steps=max_steps); m.unroll = unroll; m.deadline = t0 + (60 if max_steps <= 60000 else 240)
    try:
        st = m.start(fn['body']); lo = m.bodies[fn['body']]
        if any(m.T.uninhabited(lo['locals'][i + 1][0]) for i in range(lo['argc'])):
            h.ends.append(('ret', 'no value of the argument exists')); h.obls.append(interp.Obl('no panic', {'fn': fn['path'], 'file': '', 'line': 0}, 'ok', 'no argument of this type exists', [])); h.secs = time.time() - t0
            return h, m
        for kind, s, info in m.run(st):
            h.ends.append((kind, info))
            if kind == 'ret': h.obls.append(interp.Obl('no panic', {'fn': fn['path'], 'file': '', 'line': 0}, 'ok', 'path returns', []))
            if kind == 'panic' and not s.ghost.get('may_panic') and not s.ghost.get('ran_out') and models.consistent(m, s):
                unk = bool(s.notes) or bool(s.ghost.get('@panic_unk')) or m.lossy(s)
                fr = s.frames[-1]
                h.obls.append(interp.Obl('no panic', {'fn': m.bodies[fr.body]['path'], 'file': m.bodies[fr.body]['file'], 'line': s.trace}, 'undecided' if unk else 'fail',
                    '%s under %s%s' % (info, m.facts_str(s), m.notes_str(s)), [m.bodies[f.body]['path'] for f in s.frames]))
    except Unsupported as u:
        h.error = 'unsupported: %s' % u
    except (Fork, Done) as e: h.error = 'escaped %s %s' % (type(e).__name__, getattr(e, 'kind', None))
    except RecursionError: h.error = 'recursion'
    except Exception as e:
        h.error = 'internal: %s' % ''.join(traceback.format_exception(e)[-3:])
    h.obls += m.obls; h.steps = m.steps; h.bodies = m.used_bodies; h.models = m.models_used; h.unmodelled = m.unmodelled; h.secs = time.time() - t0
    return h, m

def roots(facts, crate):
    return [f for f in facts['fns'] if f['path'].startswith(crate + '::') and f['name'].startswith('check_') and f.get('body') is not None]

if __name__ == '__main__':
    facts = json.load(open(sys.argv[1])); crate = sys.argv[2]; pat = sys.argv[3] if len(sys.argv) > 3 else ''
    verbose = '-v' in sys.argv; unroll = 3 if '-u' in sys.argv else 0
    for f in roots(facts, crate):
        if pat and not any(p in f['name'] if p[0] != '=' else p[1:] == f['name'] for p in pat.split(',')): continue
        h, m = run_one(facts, f, unroll)
        from collections import Counter
        c = Counter(o.status for o in h.obls); e = Counter(k for k, _ in h.ends)
        print('%-32s %s ends=%s %.2fs steps=%d %s' % (h.name, dict(c), dict(e), h.secs, h.steps, ('ERR ' + h.error) if h.error else ''))
        seen = set()
        for k, i in h.ends:
            if k == 'unsupported' and i not in seen: seen.add(i); print('     unsupported', i)
        for o in h.obls:
            if o.status != 'ok' or verbose:
                key = (o.kind, o.status, o.site['fn'], o.detail[:60])
                if key in seen: continue
                seen.add(key)
                print('   %s: %s @%s:%s  %s' % (o.status, o.kind, o.site['fn'], o.site['line'], o.detail[:400]))
        if h.unmodelled: print('     unmodelled', h.unmodelled)
