"""Ownership: which values of abstract type were dropped, and whether each of them once."""
from terms import *
from interp import Fork, Done, Unsupported, mul, solve
import streams

G = {}
NOTHING = {'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::marker::PhantomData', 'core::ptr::non_null::NonNull', 'std::sync::poison::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockReadGuard', 'std::sync::poison::rwlock::RwLockWriteGuard', 'std::sync::poison::PoisonError', 'core::slice::iter::Iter', 'core::slice::iter::IterMut', 'core::cell::Ref'}

class Unknown(Exception): pass

def mentions(s, name):
    import re
    return re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(name), s) is not None

def leaves(m, st, v, ty, name, d=0):
    """what dropping v drops of type `name`: [('v', value) | ('s', seq, lo, n, element type)]"""
    T = m.T; s = T.s(ty)
    if s == name: return [('v', v)]
    if not mentions(s, name) or isinstance(v, Uninit): return []
    if d > 12: raise Unknown('too deep: ' + s)
    t = T[ty]; k = t['k']
    if k in ('ref', 'rawptr', 'ptr', 'fn', 'fnptr', 'fndef', 'never', 'str', 'param', 'alias', 'opaque'): return []
    if t.get('nd') is False: return []
    if k == 'array':
        if isinstance(v, A): v = m.expand(st, v)
        if not isinstance(v, Seq): raise Unknown('array ' + show(v))
        e = T[t['elem']]
        if e['k'] == 'adt' and e['path'] in NOTHING: return []
        return [('s', v, ZERO, v.len, t['elem'])]
    if k in ('tuple', 'closure'):
        if isinstance(v, A): v = m.expand(st, v)
        out = []
        if v is None or not isinstance(v, Agg) and t['args' if k == 'tuple' else 'upvars']: raise Unknown(s)
        for i, x in enumerate(t['args' if k == 'tuple' else 'upvars']): out += leaves(m, st, v.f[i] if i < len(v.f) else UNINIT, x, name, d + 1)
        return out
    if k == 'adt':
        p = t['path']
        if p in NOTHING: return []
        if isinstance(v, Agg) and v.path == '@sliceiter':
            if p != 'alloc::vec::into_iter::IntoIter': return []
            b, i, e = v.f; q = G['seq_of'](m, st, b.cell, b.proj[:-1]); return [('s', q, b.proj[-1][1] + i, e - i, q.ety)]
        x, xt = G['view'](m, st, v, ty)
        if isinstance(x, Seq) and p != 'oct::sized_slice::SizedSlice': return [('s', x, ZERO, x.len, x.ety)]
        if xt is not None and (p in (G['BOX'], G['RC'], G['ARC'], G['COW'], 'core::cell::RefCell') or p in G['SINGLE_VIEW']): return leaves(m, st, x, xt, name, d + 1)
        if T.adts.get(p, {}).get('has_drop') and p.split('::')[0] == 'oct': return []          # its destructor is interpreted
        if isinstance(v, A):
            e = m.expand(st, v)
            if e is None: e = m.split_variants(st, v)
            if e is None: raise Unknown(show(v))
            v = e
        if not isinstance(v, Agg) or not t.get('vf'): raise Unknown('%s: %s' % (s, show(v)))
        out = []; vi = v.var or 0
        if vi >= len(t['vf']): raise Unknown(s)
        for i, fty in enumerate(t['vf'][vi]):
            if i < len(v.f): out += leaves(m, st, v.f[i], fty, name, d + 1)
        return out
    raise Unknown('%s: %s' % (k, s))

def flatten(m, st, evs, name):
    """events -> [(n, K, leaf)], n = None for a single one"""
    out = []
    for e in evs:
        if e[0] == 'loop':
            for n, K, lf in flatten(m, st, e[3], name):
                if n is not None: raise Unknown('nested repetition')
                out.append((e[1], e[2], lf))
        elif e[0] == 'dv':
            ty = m.T.find(e[2])
            if ty is None:
                if mentions(e[2], name): raise Unknown('type ' + e[2])
                continue
            out += [(None, None, x) for x in leaves(m, st, e[1], ty, name)]
        elif e[0] == 'ds': 
            if mentions(e[4], name): out.append((None, None, ('s', e[1], e[2], e[3], m.T.find(e[4]))))
        elif e[0] == 'forget': pass
        else: raise Unknown('event ' + e[0])
    return out
def of_seq(m, st, lf, name):
    """a run of elements as a repetition of leaves: [(n, K, leaf)]"""
    _, s, lo, n, ety = lf
    if st.ent_eq(n, ZERO) : return []
    c = n.const() if n.const() is not None else st.pin(n)
    if c is not None and c <= 16:
        out = []
        for j in range(c):
            for x in leaves(m, st, m.seq_read(st, s, lo + j), ety, name):
                if x[0] == 's': out += of_seq(m, st, x, name)
                else: out.append((None, None, x))
        return out
    d = st.decide(ge0(n + (-1)))
    if d is None: raise Fork([ge0(n + (-1)), b_not(ge0(n + (-1)))])
    if not d: return []
    K = app('dropidx', s, lo, n, lo=0, hi=U63); x = st.clone()
    x.add_fact(L(K)); x.add_fact(n - L(K) + (-1))
    try: v = m.seq_read(x, s, lo + L(K))
    except Fork: raise Unknown('elements of ' + show(s))
    out = []
    try: ls = leaves(m, x, v, ety, name)
    except Fork: raise Unknown('elements of ' + show(s))
    for y in ls:
        if y[0] == 's': raise Unknown('nested elements')
        out.append((n, K, y))
    return out
def all_drops(m, st, key, name):
    out = []
    for n, K, lf in flatten(m, st, st.rec.get(key, ()), name):
        if lf[0] == 'v': out.append((n, K, lf))
        elif n is None: out += of_seq(m, st, lf, name)
        else: raise Unknown('repeated runs')
    return out
def total(ds):
    t = ZERO
    for n, K, lf in ds: t = t + (ONE if n is None else n)
    return t
def count(m, st, ds, x):
    """how often x was dropped"""
    same = G['same']; t = ZERO
    for n, K, lf in ds:
        v = lf[1]
        if isinstance(v, Uninit): raise Unknown('uninitialised')
        if n is None or K not in atoms_of(v):
            r, w = same(m, st, v, x)
            if r is None: raise Unknown(w)
            if r: t = t + (ONE if n is None else n)
            continue
        e = solve(v, x, K)
        if e is None:
            if has_unk(v) or has_unk(x): raise Unknown(show(v))
            continue
        y = subst(v, {K: e})
        inside = [ge0(e), ge0(n - e + (-1))]
        ok = True
        for c in inside:
            d = st.decide(c)
            if d is None: raise Fork([c, b_not(c)])
            ok = ok and d
            if not ok: break
        if not ok: continue
        r, w = same(m, st, y, x)
        if r is None: raise Unknown(w)
        if r: t = t + 1
    return t

def install(M, g):
    G.update(g)
    def model(*ps):
        def d(f):
            for p in ps: M[p] = f
            return f
        return d
    @model('vrt::drops', 'vrt::cloned')
    def _(m, st, c, v, at, rt):
        name = m.T.s(G['targs'](m, at[0])[0])
        try: return total(all_drops(m, st, 'drops' if c['name'] == 'drops' else 'clones', name))
        except Unknown as e: st.note('drops: %s' % e); return m.fresh('drops', rt, unk=True)
    @model('vrt::dropped')
    def _(m, st, c, v, at, rt):
        to = m.T[at[0]]['to']; name = m.T.s(to); x = m.load(st, G['deref'](m, st, v[0]))
        try: return count(m, st, all_drops(m, st, 'drops', name), x)
        except Unknown as e: st.note('drops: %s' % e); return m.fresh('dropped', rt, unk=True)
    @model('vrt::ghost')
    def _(m, st, c, v, at, rt): return m.load(st, G['deref'](m, st, v[0]))
    @model('vrt::all_decoded_are_dropped')
    def _(m, st, c, v, at, rt):
        name = m.T.s(G['targs'](m, at[0])[0]); what = G['text'](m, st, v[1])
        try:
            made = all_drops(m, st, 'made', name); ds = all_drops(m, st, 'drops', name)
            a, b = total(made), total(ds)
            if not st.ent_eq(a, b):
                cnd = eq0(a - b)
                if st.decide(cnd) is None and not has_unk(a) and not has_unk(b): raise Fork([cnd, b_not(cnd)])
                G['judge'](m, st, what, None if has_unk(a) or has_unk(b) else False, '%s values were decoded, %s were dropped' % (show(a), show(b))); return UNIT
            for n, K, lf in made:
                x = lf[1]
                if n is not None:
                    k = L(app('anyidx', n, lo=0, hi=U63))
                    if not (st.add_fact(k) and st.add_fact(n - k + (-1))): continue
                    x = subst(x, {K: k})
                r = count(m, st, ds, x)
                if not st.ent_eq(r, ONE): G['judge'](m, st, what, False, '%s was dropped %s times' % (show(x), show(r))); return UNIT
            G['judge'](m, st, what, True, None)
        except Unknown as e: G['judge'](m, st, what, None, str(e))
        return UNIT
