"""Abstract interpreter over the exported MIR (trace partitioning, loops summarised by inductive forms)."""
import json, itertools, sys, time
from terms import *
import lin

sys.setrecursionlimit(20000)

class Fork(Exception):
    """re-execute the current step once per condition"""
    def __init__(self, conds): self.conds = conds
class Done(Exception):
    """the path ends"""
    def __init__(self, kind, info=None): self.kind = kind; self.info = info
class Unsupported(Exception): pass

class Types:
    def __init__(self, facts):
        self.t = facts['types']; self.adts = facts['adts']; self.impls = facts['impls']
        self.by_s = {}
        for i, t in enumerate(self.t): self.by_s.setdefault(t['s'], i)
        self._inh = {}
    def __getitem__(self, i): return self.t[i]
    def s(self, i): return self.t[i]['s'] if i is not None else '?'
    def add(self, d):
        k = self.by_s.get(d['s'])
        if k is not None: return k
        self.t.append(d); self.by_s[d['s']] = len(self.t) - 1
        return len(self.t) - 1
    def find(self, s): return self.by_s.get(s)
    def prim(self, name):
        k = self.by_s.get(name)
        if k is not None: return k
        if name == 'bool' or name == 'char': d = {'k': name}
        elif name[0] in 'ui':
            b = WORD if name.endswith('size') else int(name[1:]); d = {'k': 'int', 'signed': name[0] == 'i', 'bits': b, 'ptr': name.endswith('size')}
        else: d = {'k': 'other'}
        d['s'] = name; d['nd'] = False
        return self.add(d)
    def bounds(self, i):
        t = self.t[i]
        if t['k'] == 'int': return int_bounds(t['bits'], t['signed'])
        if t['k'] == 'char': return 0, 0x10FFFF
        return None, None
    def is_int(self, i): return i is not None and self.t[i]['k'] in ('int', 'char')
    def pointee(self, i):
        t = self.t[i]
        if t['k'] in ('ref', 'ptr'): return t['to']
        return None
    def adt(self, i):
        t = self.t[i]
        return self.adts.get(t['path']) if t['k'] == 'adt' else None
    def peel(self, i):
        """strip layout-transparent wrappers that the interpreter represents by their content"""
        while True:
            t = self.t[i]
            if t['k'] == 'adt' and t['path'] in PEEL:
                a = [x['t'] for x in t['args'] if 't' in x]
                if a: i = a[0]; continue
            return i
    def const(self, c):
        if c['k'] == 'int': return Lin(int(c['v']))
        if c['k'] == 'param': return L(sym('const ' + c['name'], self.prim('usize'), 0, (1 << WORD) - 1))
        return L(sym('const ' + c.get('s', '?'), self.prim('usize'), 0, (1 << WORD) - 1, unk=True))
    def uninhabited(self, i, d=0):
        if i is None or d > 8: return False
        if i in self._inh: return self._inh[i]
        t = self.t[i]; r = False
        if t['k'] == 'never': r = True
        elif t['k'] == 'tuple': r = any(self.uninhabited(x, d + 1) for x in t['args'])
        elif t['k'] == 'array': r = False
        elif t['k'] == 'adt':
            if t['path'] == 'core::convert::Infallible': r = True
            elif t.get('vf') is not None:
                ad = self.adts.get(t['path'])
                if ad and ad['kind'] in ('struct', 'enum'):
                    self._inh[i] = False
                    r = all(any(self.uninhabited(f, d + 1) for f in v) for v in t['vf'])
        elif t['k'] == 'alias': r = self.uninhabited(self.norm(i), d + 1) if self.norm(i) != i else False
        self._inh[i] = r
        return r
    def norm(self, i): return i

def int_bounds(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

PEEL = {'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling', 'core::cell::UnsafeCell'}

class Frame:
    __slots__ = ('uid', 'body', 'bb', 'si', 'active', 'dest', 'retbb', 'post')
    def __init__(self, uid, body, dest, retbb, post=None):
        self.uid = uid; self.body = body; self.bb = 0; self.si = 0; self.active = (); self.dest = dest; self.retbb = retbb; self.post = post
    def copy(self):
        f = Frame(self.uid, self.body, self.dest, self.retbb, self.post); f.bb = self.bb; f.si = self.si; f.active = self.active
        return f

class State:
    __slots__ = ('frames', 'mem', 'facts', 'nes', 'batoms', 'clauses', 'rec', 'inp', 'notes', 'ghost', 'm', 'trace')
    def clone(self):
        s = State(); s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.facts = self.facts; s.nes = self.nes
        s.batoms = dict(self.batoms); s.clauses = self.clauses; s.rec = dict(self.rec); s.inp = dict(self.inp); s.notes = self.notes
        s.ghost = dict(self.ghost); s.m = self.m; s.trace = self.trace
        return s
    # --- facts
    def add_fact(self, l):
        """l >= 0; False if contradictory"""
        if not l.t: return l.c >= 0
        if l in self.facts: return True
        ch = self.m.char_ty
        if ch is not None:
            for a, _ in l.t:
                if a.ty == ch and ('@char', a) not in self.ghost:
                    self.ghost[('@char', a)] = True
                    self.clauses = self.clauses + ((('ge', -L(a) + 0xD7FF), ('ge', L(a) + (-0xE000))),)
        if lin.query(self.facts, -l + (-1)): return False
        self.facts = self.facts + (l,)
        if not self._ne_tighten(l): return False
        return self._clauses(l)
    def _clauses(self, l):
        at = set(a for a, _ in l.t)
        for cl in self.clauses:
            if not any(a in at for n in cl for a, _ in n[1].t): continue
            live = [n for n in cl if not self.refuted(n)]
            if not live: return False
            if len(live) == 1:
                self.clauses = tuple(c for c in self.clauses if c is not cl)
                if not self.assume(live[0]): return False
        return True
    def refuted(self, n): return self.decide(n) is False
    def _ne_tighten(self, l):
        at = set(a for a, _ in l.t)
        for e in self.nes:
            if not any(a in at for a, _ in e.t): continue
            if self.ent(e):
                if self.ent(-e): return False
                if not self.ent(e + (-1)):
                    self.facts = self.facts + (e + (-1),)
                    return self._ne_tighten(e)
            elif self.ent(-e):
                if not self.ent(-e + (-1)):
                    self.facts = self.facts + (-e + (-1),)
                    return self._ne_tighten(e)
        return True
    def ent(self, l):
        """facts |= l >= 0 ?"""
        if not l.t: return l.c >= 0
        lo, hi = lin_bounds(l)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        return lin.query(self.facts, l)
    def ent_eq(self, a, b):
        d = a - b
        if not d.t: return d.c == 0
        return self.ent(d) and self.ent(-d)
    def pin(self, l, upto=8):
        """the constant l is known to equal, if small"""
        if not l.t: return l.c
        if not self.ent(l) or not self.ent(-l + upto): return None
        for c in range(upto + 1):
            if not self.ent(l + (-c - 1)) :
                return c if self.ent(-l + c) else None
        return None
    def cong(self, a, b, d=0):
        """congruence: same operation on equal arguments"""
        if a is b: return True
        if d > 12 or type(a) is not type(b): return False
        if isinstance(a, Lin):
            if self.ent_eq(a, b): return True
            x = a - b
            if x.c: return False
            neg = [t for t in x.t if t[1] < 0]
            for p, k in x.t:
                if k < 0: continue
                for i, (q, j) in enumerate(neg):
                    if j == -k and q.key[:2] == p.key[:2] and self.cong(p, q, d + 1): del neg[i]; break
                else: return False
            return not neg
        if isinstance(a, A):
            if a.key[0] != 'app' or b.key[0] != 'app' or a.key[1] != b.key[1] or len(a.key) != len(b.key) or a.ty != b.ty: return False
            for x, y in zip(a.key[2:], b.key[2:]):
                if x is y or x == y: continue
                if isinstance(x, (A, Lin)) and self.cong(x, y, d + 1): continue
                return False
            return True
        return a == b
    def assume(self, n):
        if isinstance(n, Bn): n = n.n
        if '@univ' in self.ghost and n[0] in ('ge', 'eq', 'ne', 'atom', 'not'):
            before = len(self.facts)
            if not (self.instantiate(n) and self._assume(n) and self.instantiate(n)): return False
            if len(self.facts) != before and not _IN[0]:
                h = {}
                for b, w in self.batoms.items():
                    if b.key[0] == 'app': h.setdefault(b.key[:2], []).append((b, w))
                for g in h.values():
                    if any(x[1] is not y[1] and self.cong(x[0], y[0]) for i, x in enumerate(g) for y in g[:i]): return False
            if n[0] in ('atom', 'not') and not _IN[0]:
                a, v = (n[1], True) if n[0] == 'atom' else (n[1][1], False)
                if a.key[0] == 'app' and any(b is not a and w is not v and b.key[:2] == a.key[:2] and self.cong(a, b) for b, w in self.batoms.items()): return False
            return True
        return self._assume(n)
    def _assume(self, n):
        k = n[0]
        if k == 't': return True
        if k == 'f': return False
        if k == 'ge': return self.add_fact(n[1])
        if k == 'eq':
            if not n[1].t: return n[1].c == 0
            if self.ent(n[1] + (-1)) or self.ent(-n[1] + (-1)): return False
            for e in self.nes:
                if e == n[1] or e == -n[1]: return False
            return self.add_fact(n[1]) and self.add_fact(-n[1])
        if k == 'ne':
            d = self.decide(('eq', n[1]))
            if d is True: return False
            if d is False: return True
            self.nes = self.nes + (n[1],)
            return self._ne_tighten(n[1])
        if k == 'atom':
            v = self.decide(n)
            if v is not None: return v
            self.batoms[n[1]] = True
            return True
        if k == 'not':
            v = self.decide(n[1])
            if v is not None: return not v
            self.batoms[n[1][1]] = False
            return True
        if k == 'and': return self.assume(n[1]) and self.assume(n[2])
        if k == 'or':
            da, db = self.decide(n[1]), self.decide(n[2])
            if da is True or db is True: return True
            if da is False: return self.assume(n[2])
            if db is False: return self.assume(n[1])
            raise Fork([n[1], b_and(b_not(n[1]), n[2])])
        return True
    def decide(self, n):
        if isinstance(n, Bn): n = n.n
        if '@univ' in self.ghost and n[0] in ('ge', 'eq', 'ne', 'atom', 'not'): self.instantiate(n)
        return self._decide(n)
    def _decide(self, n):
        k = n[0]
        if k == 't': return True
        if k == 'f': return False
        if k == 'ge':
            if self.ent(n[1]): return True
            if self.ent(-n[1] + (-1)): return False
            return None
        if k in ('eq', 'ne'):
            l = n[1]; r = None
            if not l.t: r = l.c == 0
            elif self.ent(l + (-1)) or self.ent(-l + (-1)): r = False
            elif any(e == l or e == -l for e in self.nes): r = False
            elif self.ent(l) and self.ent(-l): r = True
            elif l.c == 0 and len(l.t) == 2 and l.t[0][1] == -l.t[1][1] and self.cong(l.t[0][0], l.t[1][0], 1): r = True
            if r is None: return None
            return r if k == 'eq' else not r
        if k == 'atom':
            v = self.batoms.get(n[1])
            if v is None and '@univ' in self.ghost: v = self.same_atom(n[1])
            return v
        if k == 'not':
            v = self.decide(n[1]); return None if v is None else not v
        if k == 'and':
            a, b = self.decide(n[1]), self.decide(n[2])
            if a is False or b is False: return False
            if a is True and b is True: return True
            return None
        if k == 'or':
            a, b = self.decide(n[1]), self.decide(n[2])
            if a is True or b is True: return True
            if a is False and b is False: return False
            return None
        return None
    def same_atom(self, a):
        if a.key[0] != 'app': return None
        for b, v in self.batoms.items():
            if b.key[:2] == a.key[:2] and self.cong(a, b): return v
        return None
    def instantiate(self, n):
        """what every finished iteration of a summarised loop established, applied to the atoms of a condition; False: contradiction"""
        if _IN[0]: return True
        _IN[0] = True
        try:
            for a in direct_atoms(n):
                for K, lo, hi, g in self.ghost['@univ']:
                    for p in direct_atoms(g):
                        if p.key[:2] != a.key[:2] or p.key[0] != 'app' or K not in atoms_of(p): continue
                        e = solve(p, a, K)
                        for e in ((e,) if e is not None else (ZERO, ONE, Lin(2))):
                            x = subst(p, {K: e})
                            if isinstance(x, Lin): x = x.atom()
                            if x is a or x is not None and self.cong(x, a): break
                        else: continue
                        if not self.ent(e - lo): continue
                        node = subst_n(g, {K: e}) if x is a else subst_n(subst_n(g, {p: L(a) if n[0] != 'atom' and g[0] != 'atom' and g[0] != 'not' else a}), {K: e})
                        d = self.decide(node)
                        if d is True: continue
                        if self.ent(hi - e + (-1)):
                            if d is False or not self.assume(node): return False
                        elif d is False:
                            if not self.add_fact(e - hi): return False
        finally: _IN[0] = False
        return True
    def note(self, s):
        if s not in self.notes: self.notes = self.notes + (s,)
    def emit(self, key, ev): self.rec[key] = self.rec.get(key, ()) + (ev,)

_IN = [False]
def direct_atoms(n):
    if n[0] in ('ge', 'eq', 'ne'): return [a for a, _ in n[1].t]
    if n[0] == 'atom': return [n[1]]
    if n[0] == 'not': return direct_atoms(n[1])
    return []
def solve(p, t, K):
    """the value of K that may turn p into t"""
    if p is t: return None
    if isinstance(p, Lin) and isinstance(t, A): t = L(t)
    if isinstance(p, Lin) and isinstance(t, Lin):
        for a, k in p.t:
            if a is K and k in (1, -1):
                d = (t - (p - Lin(0, ((K, k),)))).scale(k)
                return d if K not in [x for x, _ in d.t] or True else None
        for a, k in p.t:
            for b, j in t.t:
                if k == j and a is not b:
                    e = solve(a, b, K)
                    if e is not None: return e
        return None
    if isinstance(p, A) and isinstance(t, A):
        if p is K: return L(t)
        if p.key[0] != 'app' or t.key[:2] != p.key[:2] or len(p.key) != len(t.key): return None
        for x, y in zip(p.key[2:], t.key[2:]):
            e = solve(x, y, K)
            if e is not None: return e
    if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
        for x, y in zip(p, t):
            e = solve(x, y, K)
            if e is not None: return e
    if isinstance(p, (Agg, Ptr, Seq, Bn)) and type(p) is type(t):
        for x, y in zip(children(p), children(t)):
            e = solve(x, y, K)
            if e is not None: return e
    return None

class Obl:
    """one obligation instance"""
    __slots__ = ('kind', 'site', 'status', 'detail', 'stack')
    def __init__(self, kind, site, status, detail, stack): self.kind = kind; self.site = site; self.status = status; self.detail = detail; self.stack = stack

ORDER = {False: 'little', True: 'big'}
class Machine:
    def __init__(self, facts, models, max_steps=60000, depth=80):
        configure(facts)
        self.F = facts; self.T = Types(facts); self.bodies = facts['bodies']; self.models = models
        self.uid = itertools.count(1); self.cellc = itertools.count(1)
        self.loops = {}
        self.max_steps = max_steps; self.steps = 0; self.deadline = None; self.unroll = 0; self.maxdepth = depth
        self.obls = []; self.record = True; self.used_bodies = set(); self.models_used = set(); self.unmodelled = set()
        self.struct_inv = {}      # adt path -> fn(machine, st, A, Agg) adds facts on expansion
        self.vfields = {}         # adt path -> fn(machine, A, variant) -> field types, for enums whose fields are not exported
        self.virt = {}            # adt path -> fn(machine, A, tyinfo) -> Agg fields
        self.fnmap = {}; self.char_ty = self.T.by_s.get('char')
        for f in facts['fns']: self.fnmap.setdefault(f['path'], []).append(f)
        import terms
        terms._intern.clear(); terms.UTF8.clear(); terms.NONUL.clear()
        models.install(self)

    # ---------- types -> symbolic values
    def val_of(self, a, ty):
        """value denoted by atom a of type ty"""
        T = self.T
        if ty is None: return a
        ty = T.peel(ty); t = T[ty]; k = t['k']
        if k in ('int', 'char'): return L(a)
        if k == 'bool': return Bn(('atom', a))
        if k in ('ref', 'ptr'):
            to = T.peel(t['to']); tt = T[to]
            if k == 'ptr' and a.key[0] == 'sym' and a.unk: return a
            if tt['k'] in ('slice', 'str'):
                n = app('len', a, ty=T.prim('usize'), lo=0, hi=U63)
                return Ptr(('deref', a, to), (('idx', ZERO),), L(n), ty)
            return Ptr(('deref', a, to), (), None, ty)
        if k == 'tuple' and not t['args']: return UNIT
        return a
    def mk(self, fn, *args, ty=None, unk=False):
        T = self.T; lo = hi = None
        if ty is not None:
            ty = T.peel(ty)
            lo, hi = T.bounds(ty)
        if fn == 'elem' and args[0] in NONUL: lo = 1
        a = app(fn, *args, ty=ty, lo=lo, hi=hi, unk=unk)
        return a
    def mkv(self, fn, *args, ty=None, unk=False): return self.val_of(self.mk(fn, *args, ty=ty, unk=unk), ty)
    def fresh(self, name, ty, unk=False):
        lo = hi = None
        if ty is not None: ty = self.T.peel(ty); lo, hi = self.T.bounds(ty)
        return self.val_of(fresh(name, ty, lo, hi, unk), ty)
    def symv(self, name, ty):
        ty = self.T.peel(ty); lo, hi = self.T.bounds(ty)
        return self.val_of(sym(name, ty, lo, hi), ty)

    def expand(self, st, a):
        """structural form of an opaque aggregate (struct / tuple / array); None if it has no unique form"""
        if not isinstance(a, A) or a.ty is None: return None
        T = self.T; t = T[a.ty]
        if t['k'] == 'tuple': return Agg('()', None, [self.mkv('fld', a, i, ty=x) for i, x in enumerate(t['args'])], a.ty)
        if t['k'] == 'array': return Seq(T.const(t['len']), t['elem'], ('sym', a))
        if t['k'] in ('slice', 'str'):
            n = app('len', a, ty=T.prim('usize'), lo=0, hi=U63)
            if t['k'] == 'str': UTF8[a] = L(n)
            return Seq(L(n), t['elem'] if t['k'] == 'slice' else T.prim('u8'), ('sym', a), (), 'utf8' if t['k'] == 'str' else None)
        if t['k'] == 'closure':
            return Agg(t['path'], None, [self.mkv('fld', a, i, ty=x) for i, x in enumerate(t['upvars'])], a.ty)
        if t['k'] == 'adt':
            v = self.virt.get(t['path'])
            if v: return v(self, st, a, t)
            ad = T.adts.get(t['path'])
            if not ad or (t.get('vf') is None and t['path'] not in self.vfields): return None
            if ad['kind'] == 'struct':
                g = Agg(t['path'], None, [self.mkv('fld', a, i, ty=x) for i, x in enumerate(t['vf'][0])], a.ty)
                inv = self.struct_inv.get(t['path'])
                if inv: g = inv(self, st, a, g, t) or g
                return g
            if ad['kind'] == 'enum':
                inh = self.variants(a.ty)
                if len(inh) == 1: return self.variant_form(a, inh[0])
                for vi in inh:
                    if st.decide(('eq', L(self.discr_atom(a)) + (-self.discr_val(a.ty, vi)))) is True: return self.variant_form(a, vi)
        return None
    def variants(self, ty):
        T = self.T; t = T[ty]; vf = t.get('vf'); ad = T.adts[t['path']]
        n = len(ad['variants'])
        if vf is None: return list(range(n))
        return [i for i in range(n) if not any(T.uninhabited(f) for f in vf[i])]
    def variant_form(self, a, vi):
        t = self.T[a.ty]
        vf = t.get('vf')
        if t['path'] in self.vfields: vf = {vi: self.vfields[t['path']](self, a, vi)}
        if vf is None: raise Unsupported('variant of ' + t['s'])
        return Agg(t['path'], vi, [self.mkv('vfld', a, vi, i, ty=x) for i, x in enumerate(vf[vi])], a.ty)
    def discr_val(self, ty, vi):
        t = self.T[ty]; ad = self.T.adts[t['path']]
        v = int(ad['variants'][vi]['discr'])
        dt = ad['discr_ty']
        if dt is not None and dt >= 0:
            d = self.T[dt] if dt < len(self.T.t) else None
            if d and d['k'] == 'int' and d['signed'] and v >= (1 << (d['bits'] - 1)): v -= 1 << d['bits']
        return v
    def discr_atom(self, a):
        vs = self.variants(a.ty)
        ds = [self.discr_val(a.ty, v) for v in vs] or [0]
        return app('discr', a, ty=self.T.prim('isize'), lo=min(ds), hi=max(ds))
    def split_variants(self, st, a):
        """make the variant of an enum atom known"""
        g = self.expand(st, a)
        if g is not None: return g
        t = self.T[a.ty] if a.ty is not None else None
        if t and t['k'] == 'adt' and self.T.adts.get(t['path'], {}).get('kind') == 'enum':
            d = L(self.discr_atom(a))
            raise Fork([eq0(d + (-self.discr_val(a.ty, v))) for v in self.variants(a.ty)])
        return None

    # ---------- memory
    def cell_value(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if isinstance(cell, tuple) and cell[0] == 'deref':
                a, to = cell[1], cell[2]
                t = self.T[to]
                if t['k'] in ('slice', 'str'):
                    n = app('len', a, ty=self.T.prim('usize'), lo=0, hi=U63)
                    v = Seq(L(n), t['elem'] if t['k'] == 'slice' else self.T.prim('u8'), ('sym', app('*', a)), (), 'utf8' if t['k'] == 'str' else None)
                    if t['k'] == 'str': UTF8[app('*', a)] = L(n)
                else:
                    v = self.mkv('*', a, ty=to)
                st.mem[cell] = v
            else:
                return UNINIT
        return v
    def proj_read(self, st, v, proj):
        i = 0; n = len(proj)
        while i < n:
            p = proj[i]; k = p[0]
            if k == 'f':
                if isinstance(v, A):
                    e = self.expand(st, v)
                    if e is None: e = self.split_variants(st, v)
                    if e is None: raise Unsupported('field of %s : %s' % (show(v), self.T.s(v.ty)))
                    v = e
                if isinstance(v, Agg):
                    if p[1] >= len(v.f): raise Unsupported('field %s of %s' % (p[1], show(v)))
                    v = v.f[p[1]]
                elif isinstance(v, Uninit): return UNINIT
                else: raise Unsupported('field of ' + show(v))
            elif k == 'down':
                if isinstance(v, A):
                    e = self.expand(st, v)
                    if e is not None and isinstance(e, Agg) and e.var == p[1]: v = e
                    else:
                        v = self.variant_form(v, p[1])
                elif isinstance(v, Agg):
                    if v.var is not None and v.var != p[1]: raise Done('unreach', 'variant mismatch')
            elif k == 'idx':
                if isinstance(v, A): v = self.expand(st, v) or v
                if not isinstance(v, Seq):
                    if isinstance(v, Uninit): return UNINIT
                    raise Unsupported('index of ' + show(v))
                v = self.seq_read(st, v, p[1])
            i += 1
        return v
    def seq_read(self, st, s, i):
        for lo, hi, k, p in reversed(s.layers):
            if not (hi - lo).t and (hi - lo).c <= 0: continue
            a = ge0(i - lo); b = ge0(hi - i + (-1))
            da, db = st.decide(a), st.decide(b)
            if da is True and db is True:
                if k == 'fill': return subst(p[1], {p[0]: i}) if p[0] is not None else p[1]
                return self.seq_read(st, p[0], i - lo + p[1])
            if da is False or db is False: continue
            raise Fork([b_and(a, b), b_and(a, b_not(b)), b_not(a)])
        b = s.base
        if b[0] == 'uninit': return UNINIT
        if b[0] == 'rep': return b[1]
        if b[0] == 'vals':
            if any(a.key[0] == 'app' and a.key[1] == 'b2i' for a, _ in i.t): i = self.subst_bools(st, i)
            c = i.const()
            if c is not None:
                return b[1][c] if 0 <= c < len(b[1]) else UNINIT
            if len(b[1]) == 1: return b[1][0]
            if len(b[1]) and all(x == b[1][0] for x in b[1]): return b[1][0]
            conds = [eq0(i + (-j)) for j in range(len(b[1])) if st.decide(eq0(i + (-j))) is not False]
            if len(conds) <= 16:
                for j in range(len(b[1])):
                    if st.decide(eq0(i + (-j))) is True: return b[1][j]
                raise Fork(conds)
            return self.mkv('select', Seq(s.len, s.ety, b), i, ty=s.ety, unk=True)
        if b[0] == 'prefix':
            d = st.decide(ge0(b[2] - i + (-1)))
            if d is True: return self.mkv('elem', b[1], i, ty=s.ety)
            if d is False: return UNINIT
            raise Fork([ge0(b[2] - i + (-1)), b_not(ge0(b[2] - i + (-1)))])
        if b[0] == 'window':
            c = b_and(ge0(i - b[2]), ge0(b[3] - i + (-1))); d = st.decide(c)
            if d is True: return self.mkv('elem', b[1], i, ty=s.ety)
            if d is False: return UNINIT
            raise Fork([c, b_not(c)])
        if b[0] == 'sym': return self.mkv('elem', b[1], i, ty=s.ety)
        if b[0] == 'gen':   # generator: ('gen', atom, template)
            return subst(b[2], {b[1]: i})
        raise Unsupported('seq base ' + b[0])
    def proj_write(self, st, v, proj, new):
        if not proj: return new
        p = proj[0]; k = p[0]
        if k == 'f':
            if isinstance(v, A): v = self.expand(st, v) or self.split_variants(st, v) or v
            if isinstance(v, Uninit) or v is None: v = Agg('?', None, ())
            if not isinstance(v, Agg): raise Unsupported('write field of ' + show(v))
            old = v.f[p[1]] if p[1] < len(v.f) else UNINIT
            return v.with_f(p[1], self.proj_write(st, old, proj[1:], new))
        if k == 'down':
            if isinstance(v, A): v = self.variant_form(v, p[1])
            if isinstance(v, Uninit) or v is None: v = Agg('?', p[1], ())
            if isinstance(v, Agg) and v.var != p[1]: v = Agg(v.path, p[1], v.f if v.var is None else (), v.ty)
            return self.proj_write(st, v, proj[1:], new)
        if k == 'idx':
            if isinstance(v, A): v = self.expand(st, v) or v
            if not isinstance(v, Seq): raise Unsupported('write index of ' + show(v))
            if len(proj) > 1:
                old = self.seq_read(st, v, p[1]); new = self.proj_write(st, old, proj[1:], new)
            if v.base[0] == 'vals' and not v.layers:
                c = p[1].const()
                if c is not None and 0 <= c < len(v.base[1]):
                    vs = list(v.base[1]); vs[c] = new
                    return Seq(v.len, v.ety, ('vals', tuple(vs)), (), v.tag)
            ls = v.layers
            while ls and ls[-1][0] == p[1] and ls[-1][1] == p[1] + 1: ls = ls[:-1]
            return Seq(v.len, v.ety, v.base, ls + ((p[1], p[1] + 1, 'fill', (None, new)),), None)
        raise Unsupported('write ' + k)
    def load(self, st, ptr):
        if isinstance(ptr, A): raise Unsupported('load through ' + show(ptr))
        return self.proj_read(st, self.cell_value(st, ptr.cell), ptr.proj)
    def store(self, st, ptr, v):
        if isinstance(ptr, A): raise Unsupported('store through ' + show(ptr))
        if '@shared' in st.ghost: self.models.shared_write(self, st, ptr.cell, ptr.proj, 'written to')
        st.mem[ptr.cell] = self.proj_write(st, self.cell_value(st, ptr.cell), ptr.proj, v)
    def new_cell(self, st, v):
        c = 'h%d' % next(self.cellc); st.mem[c] = v
        return c
    def lcell(self, fr, l): return (fr.uid << 10) + l

    # ---------- places / operands
    def place(self, st, pl):
        fr = st.frames[-1]
        cell = self.lcell(fr, pl[0]); proj = (); meta = None
        cur_ty = self.bodies[fr.body]['locals'][pl[0]][0]
        T = self.T
        for e in pl[1:]:
            k = e[0]
            if k == 'deref':
                v = self.proj_read(st, self.cell_value(st, cell), proj)
                if isinstance(v, A) and v.ty is not None:
                    v2 = self.val_of(v, v.ty)
                    v = v2 if isinstance(v2, Ptr) else (self.expand(st, v) or v)
                v = self.unwrap_ptr(st, v)
                if not isinstance(v, Ptr): raise Unsupported('deref of ' + show(v))
                cell, proj, meta = v.cell, v.proj, v.meta
                to = T.pointee(T.peel(cur_ty)) if cur_ty is not None else None
                if to is None and cur_ty is not None and T[cur_ty]['k'] == 'adt': to = ([x['t'] for x in T[cur_ty]['args'] if 't' in x] or [None])[0]
                cur_ty = to
                self.dynty = v.ty if to is not None and T[to]['k'] == 'dyn' else None
                if cur_ty is not None and T[T.peel(cur_ty)]['k'] not in ('slice', 'str') and T[cur_ty].get('path') != 'core::ffi::c_str::CStr': meta = None
            elif k == 'field':
                if cur_ty is not None and T[cur_ty]['k'] == 'adt' and T[cur_ty]['path'] in PEEL: pass
                else: proj = proj + (('f', e[1]),)
                cur_ty = e[2]; meta = None
            elif k == 'index':
                i = self.cell_value(st, self.lcell(fr, e[1]))
                base = proj
                if base and base[-1][0] == 'idx' and meta is not None: proj = base[:-1] + (('idx', base[-1][1] + i),)
                else: proj = proj + (('idx', i),)
                cur_ty = T[T.peel(cur_ty)].get('elem') if cur_ty is not None else None; meta = None
            elif k == 'cidx':
                off = Lin(e[1])
                if meta is not None and proj and proj[-1][0] == 'idx':
                    base = proj[-1][1]; n = meta; pre = proj[:-1]
                else:
                    sv = self.proj_read(st, self.cell_value(st, cell), proj)
                    if isinstance(sv, A): sv = self.expand(st, sv)
                    base = ZERO; n = sv.len; pre = proj
                proj = pre + (('idx', base + (n - off if e[3] else off)),)
                cur_ty = T[T.peel(cur_ty)].get('elem') if cur_ty is not None else None; meta = None
            elif k == 'subslice':
                if meta is not None and proj and proj[-1][0] == 'idx': base = proj[-1][1]; n = meta; pre = proj[:-1]
                else:
                    sv = self.proj_read(st, self.cell_value(st, cell), proj)
                    if isinstance(sv, A): sv = self.expand(st, sv)
                    base = ZERO; n = sv.len; pre = proj
                hi = (n - Lin(e[2])) if e[3] else Lin(e[2])
                proj = pre + (('idx', base + e[1]),); meta = hi - e[1]
            elif k == 'down': proj = proj + (('down', e[1]),)
            else: raise Unsupported('place ' + k)
        return cell, proj, meta, cur_ty
    def unwrap_ptr(self, st, v):
        """Box / NonNull / Unique around a pointer"""
        for _ in range(6):
            if isinstance(v, Agg) and v.f: v = v.f[0]
            elif isinstance(v, A):
                e = self.expand(st, v)
                if e is None: break
                v = e
            else: break
        return v
    def read_place(self, st, pl):
        cell, proj, meta, _ = self.place(st, pl)
        return self.proj_read(st, self.cell_value(st, cell), proj)
    def write_place(self, st, pl, v):
        if len(pl) == 1:
            st.mem[self.lcell(st.frames[-1], pl[0])] = v; return
        cell, proj, meta, _ = self.place(st, pl)
        if '@shared' in st.ghost: self.models.shared_write(self, st, cell, proj, 'written to')
        st.mem[cell] = self.proj_write(st, self.cell_value(st, cell), proj, v)
    def operand(self, st, o):
        k = o[0]
        if k == 'c': return self.read_place(st, o[1])
        if k == 'm':
            v = self.read_place(st, o[1])
            return v
        if k == 'k': return self.const(st, o[1])
        if k == 'rt': return FALSE
        raise Unsupported('operand ' + k)
    def int_const(self, v, ty):
        t = self.T[ty]; v = int(v)
        if t['k'] == 'bool': return TRUE if v else FALSE
        if t['k'] == 'int':
            if t['signed'] and v >= 1 << (t['bits'] - 1): v -= 1 << t['bits']
            return Lin(v)
        if t['k'] == 'char': return Lin(v)
        if t['k'] == 'float': return self.mk('fconst', v, ty=ty)
        if t['k'] in ('ptr', 'ref'): return app('ptrconst', v, ty=ty)
        if t['k'] == 'adt':
            ad = self.T.adts.get(t['path'])
            if ad and ad['kind'] == 'struct' and t.get('vf'):
                fs = t['vf'][0]; nz = [i for i, f in enumerate(fs) if not self.zst(f)]
                if len(nz) == 1: return Agg(t['path'], None, [self.int_const(v, f) if i == nz[0] else self.zst_val(f) for i, f in enumerate(fs)], ty)
            if ad and ad['kind'] == 'enum' and t.get('vf'):
                pay = [[f for f in fs if not self.zst(f)] for fs in t['vf']]; full = [i for i, p in enumerate(pay) if p]
                hit = None
                if not full: hit = next((i for i, vv in enumerate(ad['variants']) if int(vv['discr']) == v), None)
                elif len(full) == 1 and len(pay[full[0]]) == 1:
                    # niche encoding: the scalar is the payload unless it is no value of the payload's type
                    w = self.scalar_valid(v, pay[full[0]][0])
                    rest = [i for i in range(len(pay)) if i != full[0]]
                    if w: hit = full[0]
                    elif w is False and len(rest) == 1: hit = rest[0]
                if hit is not None:
                    return Agg(t['path'], hit, [self.zst_val(f) if self.zst(f) else self.int_const(v, f) for f in t['vf'][hit]], ty)
            if t['path'].startswith('core::num::niche_types') or t['path'] == 'core::num::nonzero::NonZero': return Agg(t['path'], None, (Lin(v),), ty)
        return self.mk('const', v, self.T.s(ty), ty=ty)
    def scalar_valid(self, v, ty):
        """is the scalar v a value of the type? None: not known"""
        t = self.T[ty]
        if t['k'] == 'bool': return v < 2
        if t['k'] == 'char': return v < 0xD800 or 0xDFFF < v < 0x110000
        if t['k'] in ('ref', 'fnptr') or t.get('path') == 'core::num::nonzero::NonZero': return v != 0
        if t['k'] == 'adt' and t.get('vf') and self.T.adts.get(t['path'], {}).get('kind') == 'enum' and not any(t['vf']):
            return any(int(x['discr']) == v for x in self.T.adts[t['path']]['variants'])
        return None
    def zst(self, ty):
        t = self.T[ty]
        if t['k'] == 'tuple': return all(self.zst(x) for x in t['args'])
        if t['k'] == 'adt': return t['path'] in ('core::marker::PhantomData', 'core::marker::PhantomPinned', 'alloc::alloc::Global')
        return t['k'] in ('fndef', 'never')
    def zst_val(self, ty):
        t = self.T[ty]
        if t['k'] == 'tuple': return Agg('()', None, [self.zst_val(x) for x in t['args']], ty)
        if t['k'] == 'adt':
            ad = self.T.adts.get(t['path']); 
            if ad and ad['kind'] == 'enum':
                for i, vv in enumerate(ad['variants']):
                    if not vv['fields']: return Agg(t['path'], i, (), ty)
            return Agg(t['path'], None, [self.zst_val(f) for f in (t.get('vf') or [[]])[0]], ty)
        if t['k'] == 'closure': return Agg(t['path'], None, (), ty)
        if t['k'] == 'fndef': return app('fn', t['path'], t['s'], ty=ty)
        if t['k'] == 'array': return Seq(self.T.const(t['len']), t['elem'], ('vals', ()))
        return self.mk('zst', t['s'], ty=ty)
    def const(self, st, c):
        k = c['k']; ty = c.get('ty')
        if k == 'int': return self.int_const(c['v'], ty)
        if k == 'zst': return self.zst_val(ty)
        if k == 'tyconst': return self.T.const(c['c'])
        if k in ('bytes', 'refbytes'):
            key = ('konst', k, tuple(c['bytes']), ty)
            if key not in st.mem:
                to = self.T[ty].get('to'); tt = self.T[to] if to is not None else None
                if k == 'bytes' or (tt and tt['k'] == 'array' and self.T.s(tt['elem']) == 'u8'):
                    tag = 'utf8' if tt and tt['k'] == 'str' else None
                    st.mem[key] = Seq(Lin(len(c['bytes'])), self.T.prim('u8'), ('vals', tuple(Lin(b) for b in c['bytes'])), (), tag)
                else:
                    st.mem[key] = self.from_bytes(c['bytes'], to)
            if k == 'bytes': return Ptr(key, (('idx', ZERO),), Lin(len(c['bytes'])), ty)
            return Ptr(key, (), None, ty)
        if k == 'mem': return self.from_bytes(c['bytes'], ty)
        if k == 'agg':
            t = self.T[ty]
            return Agg('()' if t['k'] == 'tuple' else t['path'], c['variant'], tuple(self.const(st, x) for x in c['fields']), ty)
        if k == 'promoted' or (k == 'uneval' and c.get('body') is not None):
            b = c.get('body')
            if b is None: return self.fresh('promoted', ty, unk=True)
            key = ('promo', b)
            if key in st.mem: return st.mem[key]
            v = self.eval_body(st, b, c)
            st.mem[key] = v
            return v
        if k == 'uneval':
            argk = tuple(self.T.s(x['t']) if 't' in x else str(x['c']) for x in c['args'])
            return self.mkv('const', c['path'], argk, ty=ty)
        if k == 'fnaddr': return app('fn', c['path'], ty=ty)
        return self.fresh('opaque', ty, unk=True)
    def from_bytes(self, bs, ty):
        t = self.T[ty]
        if t['k'] in ('int', 'bool', 'char', 'float'): return self.int_const(int.from_bytes(bytes(bs), ORDER[BIG]), ty)
        if t['k'] == 'array' and t['len']['k'] == 'int':
            n = int(t['len']['v'])
            if n and len(bs) % n == 0:
                w = len(bs) // n
                return Seq(Lin(n), t['elem'], ('vals', tuple(self.from_bytes(bs[i * w:(i + 1) * w], t['elem']) for i in range(n))))
        if t['k'] == 'adt' and t['path'] == 'core::time::Duration' and len(bs) >= 12:
            return Agg(t['path'], None, (Lin(int.from_bytes(bytes(bs[:8]), ORDER[BIG])), Lin(int.from_bytes(bytes(bs[8:12]), ORDER[BIG]))), ty)
        if t['k'] == 'tuple' or t['k'] == 'adt' and self.T.adts.get(t['path'], {}).get('kind') == 'enum': return self.fresh('opaque', ty, unk=True)
        return self.mk('mem', tuple(bs), self.T.s(ty), ty=ty)
    def eval_body(self, st, b, c):
        """evaluate a constant's body in place"""
        s = st.clone(); base = len(s.frames)
        fr = Frame(next(self.uid), b, None, None, 'keep'); s.frames.append(fr)
        res = self.run(s, stop=None, base=base)
        vals = [(k, x, v) for k, x, v in res if k == 'ret']
        if len(vals) == 1 and len(res) == 1:
            s2 = vals[0][1]
            for cc, vv in s2.mem.items():
                if cc not in st.mem: st.mem[cc] = vv
            return vals[0][2]
        # several paths (e.g. max of two symbolic sizes): fork on the path conditions
        conds = []
        for k, x, v in vals:
            n = ('t',)
            for f in x.facts[len(st.facts):]: n = b_and(n, ge0(f))
            conds.append((n, v, x))
        live = [(n, v, x) for n, v, x in conds if st.decide(n) is not False]
        for n, v, x in live:
            if st.decide(n) is True:
                for cc, vv in x.mem.items():
                    if cc not in st.mem: st.mem[cc] = vv
                return v
        if live: raise Fork([n for n, _, _ in live])
        raise Unsupported('constant body')

    # ---------- arithmetic
    def fit(self, st, l, ty):
        """l if provably representable in ty else None"""
        lo, hi = self.T.bounds(ty)
        if st.ent(l + (-lo)) and st.ent(-l + hi): return l
        return None
    def halve(self, st, a, n, ty):
        """a non-negative value divided by 2^n"""
        if not n: return a
        if a.const() is not None: return Lin(a.const() >> n)
        q = L(app('div', a, 1 << n, ty=ty, lo=0, hi=None if lin_bounds(a)[1] is None else lin_bounds(a)[1] >> n))
        r = a - q.scale(1 << n)
        if not (st.add_fact(r) and st.add_fact(-r + ((1 << n) - 1))): raise Done('unreach')
        return q
    def low_byte(self, st, v, t):
        """v mod 256, for v of integer type t"""
        a = v.atom()
        if a is not None and a.key[0] == 'app' and a.key[1] == 'shr' and isinstance(a.key[2], Lin) and a.key[3] % 8 == 0 and a.key[3] < t['bits']:
            return mk_byte(a.key[2], a.key[3] // 8, t['bits'] // 8)
        x = self.trunc(st, v, 8, False)
        b = x.atom()
        return mk_byte(v, 0, t['bits'] // 8) if b is not None and b.key[0] == 'app' and b.key[1] == 'trunc' and b.key[3] == 8 else x
    def trunc(self, st, l, bits, signed):
        lo, hi = int_bounds(bits, signed)
        if not l.t:
            v = l.c & ((1 << bits) - 1)
            if signed and v >= 1 << (bits - 1): v -= 1 << bits
            return Lin(v)
        blo, bhi = lin_bounds(l)
        if blo is not None and bhi is not None and blo >= lo and bhi <= hi: return l
        if st is not None and st.ent(l + (-lo)) and st.ent(-l + hi): return l
        return mk_trunc(l, bits, signed)
    def binop(self, st, op, a, b, ty, line=None):
        T = self.T; t = T[ty]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b, ty)
        if op == 'Cmp':
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = b - a
                for n, i in ((ge0(d + (-1)), 0), (eq0(d), 1), (ge0(-d + (-1)), 2)):
                    if st.decide(n) is True: return Agg('core::cmp::Ordering', i, (), T.find('core::cmp::Ordering') or T.find('std::cmp::Ordering'))
                raise Fork([ge0(d + (-1)), eq0(d), ge0(-d + (-1))])
            raise Unsupported('Cmp')
        if t['k'] == 'bool':
            if op == 'BitAnd': return Bn(b_and(a.n, b.n))
            if op == 'BitOr': return Bn(b_or(a.n, b.n))
            if op == 'BitXor': return Bn(b_or(b_and(a.n, b_not(b.n)), b_and(b_not(a.n), b.n)))
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if t['k'] == 'float' or isinstance(a, A) or isinstance(b, A): return self.mkv('op' + op, a, b, ty=ty)
            raise Unsupported('binop %s %s %s' % (op, show(a), show(b)))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        res = None
        if base == 'Add': res = self.merge_bytes(a + b)
        elif base == 'Sub': res = a - b
        elif base == 'Mul': res = mul(a, b)
        if res is not None:
            if op.endswith('Unchecked'):
                self.obligation(st, 'arithmetic must not overflow', [ge0(res + (-T.bounds(ty)[0])), ge0(-res + T.bounds(ty)[1])])
                return res
            if op.endswith('WithOverflow'):
                lo, hi = T.bounds(ty)
                ok = b_and(ge0(res + (-lo)), ge0(-res + hi))
                return Agg('()', None, (self.trunc(st, res, t['bits'], t['signed']), Bn(b_not(ok))))
            r = self.fit(st, res, ty)
            if r is not None: return r
            if t['k'] == 'int':
                lo, hi = T.bounds(ty)
                # split on whether it wraps; wrapping is reported as an overflow event
                ok = b_and(ge0(res + (-lo)), ge0(-res + hi))
                d = st.decide(ok)
                if d is False:
                    self.wraps(st, op)
                    return self.trunc(st, res, t['bits'], t['signed'])
                if not has_unk(res) or True:
                    a1, b1 = ge0(res + (-lo)), ge0(-res + hi)
                    conds = [b_and(a1, b1)]
                    if st.decide(a1) is not True: conds.append(b_not(a1))
                    if st.decide(b1) is not True: conds.append(b_and(a1, b_not(b1)))
                    raise Fork(conds)
            return self.trunc(st, res, t['bits'], t['signed'])
        ca, cb = a.const(), b.const()
        if base in ('BitAnd', 'BitOr', 'BitXor') and ca is not None and cb is not None:
            m = (1 << t['bits']) - 1; x, y = ca & m, cb & m
            v = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[base]
            return self.trunc(st, Lin(v), t['bits'], t['signed'])
        if base == 'BitAnd' and not t['signed']:
            c, x = (ca, b) if ca is not None else (cb, a)
            if c is not None and c >= 0 and (c & (c + 1)) == 0: return self.low_byte(st, x, t) if c == 255 and t['bits'] > 8 else self.trunc(st, x, c.bit_length(), False) if c else ZERO
            if c:
                # the mask is a run of bits lo..hi: x mod 2^hi, rounded down to a multiple of 2^lo
                lo, hi = (c & -c).bit_length() - 1, c.bit_length()
                if c == (1 << hi) - (1 << lo): return self.halve(st, self.trunc(st, x, hi, False), lo, ty).scale(1 << lo)
                return L(app('and', x, c, ty=ty, lo=0, hi=c))
        if base in ('Shl', 'Shr'):
            if cb is not None and 0 <= cb < t['bits']:
                if base == 'Shl': return self.trunc(st, a.scale(1 << cb), t['bits'], t['signed'])
                if ca is not None: return Lin(ca >> cb)
                if cb == t['bits'] - 8 and cb > 0 and not t['signed']: return mk_byte(a, cb // 8, t['bits'] // 8)
                if cb % 8 and st.ent(a): return self.halve(st, a, cb, ty)
                return mk_shr(a, cb, ty, t)
            return self.mkv('op' + base, a, b, ty=ty)
        if base in ('Div', 'Rem'):
            if cb and ca is not None:
                q = abs(ca) // abs(cb); q = q if (ca < 0) == (cb < 0) else -q
                return Lin(q) if base == 'Div' else Lin(ca - q * cb)
            if cb and cb > 0 and st.ent(a):
                q = app('div', a, cb, ty=ty, lo=0, hi=None if lin_bounds(a)[1] is None else lin_bounds(a)[1] // cb)
                ql = L(q)
                r = a - ql.scale(cb)
                if not (st.add_fact(r) and st.add_fact(-r + (cb - 1))): raise Done('unreach')
                return ql if base == 'Div' else r
            if cb and cb > 0 and t['signed']:
                if st.decide(ge0(a)) is None: raise Fork([ge0(a), ge0(-a + (-1))])
                r = self.binop(st, base, -a, b, ty)          # rounds towards zero
                return -r
            return self.mkv('op' + base, a, b, ty=ty)
        if base == 'BitOr' and st.ent(a) and st.ent(b):
            # disjoint bit patterns of bytes: combine when one is a multiple of 2^n and the other is below 2^n
            for x, y in ((a, b), (b, a)):
                lo, hi = lin_bounds(y)
                if hi is not None and hi >= 0:
                    n = hi.bit_length()
                    if x.c % (1 << n) == 0 and all(k % (1 << n) == 0 for _, k in x.t): return self.merge_bytes(x + y)
        if base == 'BitXor' and a == b: return ZERO
        return self.mkv('op' + base, a, b, ty=ty)
    def compare(self, st, op, a, b, ty):
        if isinstance(a, Bn) and isinstance(b, Bn):
            x = b_or(b_and(a.n, b.n), b_and(b_not(a.n), b_not(b.n)))
            if op == 'Eq': return Bn(x)
            if op == 'Ne': return Bn(b_not(x))
            if op == 'Lt': return Bn(b_and(b_not(a.n), b.n))
            if op == 'Gt': return Bn(b_and(a.n, b_not(b.n)))
            if op == 'Le': return Bn(b_or(b_not(a.n), b.n))
            return Bn(b_or(a.n, b_not(b.n)))
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            r = self.simp_cmp(op, a, b)
            if r is not None: return r
            if op == 'Eq': return Bn(eq0(d))
            if op == 'Ne': return Bn(b_not(eq0(d)))
            if op == 'Lt': return Bn(ge0(-d + (-1)))
            if op == 'Le': return Bn(ge0(-d))
            if op == 'Gt': return Bn(ge0(d + (-1)))
            return Bn(ge0(d))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('Eq', 'Ne'):
            if a == b: return TRUE if op == 'Eq' else FALSE
            return Bn(('atom', app('ptreq', a, b)))
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f and a.path == b.path:
            x = self.discr_of(st, a), self.discr_of(st, b)
            return self.compare(st, op, x[0], x[1], ty)
        a_, b_ = a, b
        if op in ('Eq', 'Ne') and not isinstance(a, Uninit) and not isinstance(b, Uninit):
            n = ('atom', app('cmpeq', a_, b_))
            return Bn(n if op == 'Eq' else ('not', n))
        return Bn(('atom', app('cmp' + op, a_, b_)))
    def simp_cmp(self, op, a, b):
        """comparisons of 0/1 encodings of booleans"""
        for x, c in ((a, b.const()), (b, a.const())):
            at = x.atom()
            if at is not None and at.key[0] == 'app' and at.key[1] == 'b2i' and c is not None and op in ('Eq', 'Ne'):
                n = at.key[2].n
                if c == 1: return Bn(n if op == 'Eq' else b_not(n))
                if c == 0: return Bn(b_not(n) if op == 'Eq' else n)
        return None
    def discr_of(self, st, v):
        if isinstance(v, A):
            e = self.expand(st, v)
            if e is None: return L(self.discr_atom(v))
            v = e
        if isinstance(v, Agg):
            if v.var is None: return ZERO
            if v.ty is not None and self.T[v.ty]['k'] == 'adt': return Lin(self.discr_val(v.ty, v.var))
            ad = self.T.adts.get(v.path)
            if ad:
                d = int(ad['variants'][v.var]['discr'])
                dt = ad['discr_ty']
                if dt is not None and dt >= 0:
                    dd = self.T[dt]
                    if dd['k'] == 'int' and dd['signed'] and d >= 1 << (dd['bits'] - 1): d -= 1 << dd['bits']
                return Lin(d)
        raise Unsupported('discriminant of ' + show(v))
    def ptr_add(self, st, p, n):
        p = self.unwrap_ptr(st, p)
        if not isinstance(p, Ptr): raise Unsupported('pointer arithmetic on ' + show(p))
        if p.proj and p.proj[-1][0] == 'idx': return Ptr(p.cell, p.proj[:-1] + (('idx', p.proj[-1][1] + n),), None, p.ty)
        if n.const() == 0: return p
        raise Unsupported('pointer arithmetic on non-array ' + show(p))

    # ---------- casts
    def cast(self, st, kind, v, fr, to):
        T = self.T; tf, tt = T[fr], T[to]
        if kind.startswith('IntToInt') or (kind == 'Transmute' and tf['k'] in ('int', 'bool', 'char') and tt['k'] in ('int', 'char')):
            if isinstance(v, Bn): v = self.b2i(v)
            if tt['k'] == 'bool': return Bn(b_not(eq0(v)))
            if tt['k'] == 'char' or not isinstance(v, Lin): 
                if tt['k'] == 'char' and isinstance(v, Lin): return v
                if isinstance(v, Agg) and not v.f: v = self.discr_of(st, v)
                elif isinstance(v, A): v = self.discr_of(st, v)
                else: raise Unsupported('int cast of ' + show(v))
            if tt['bits'] == 8 and not tt['signed'] and tf['k'] == 'int' and tf['bits'] > 8: return self.low_byte(st, v, tf)
            return self.trunc(st, v, tt['bits'], tt['signed'])
        if kind == 'Transmute' and tf['k'] in ('int', 'char') and tt['k'] == 'bool':
            return Bn(b_not(eq0(v)))
        if kind.startswith('PtrToPtr') or kind.startswith('FnPtrToPtr') or (kind == 'Transmute' and tf['k'] in ('ptr', 'ref') and tt['k'] in ('ptr', 'ref')) or 'MutToConstPointer' in kind:
            return self.ptr_cast(st, v, tf['to'] if 'to' in tf else None, tt.get('to'), to)
        if 'ArrayToPointer' in kind:
            return Ptr(v.cell, v.proj + (('idx', ZERO),), None, to)
        if 'Unsize' in kind:
            return self.unsize(st, v, fr, to)
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind: return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            v2 = v
            if tt['k'] in ('ptr', 'ref'):
                v2 = self.unwrap_ptr(st, v2)
                if isinstance(v2, Ptr): return Ptr(v2.cell, v2.proj, v2.meta, to)
                return v2
            if T.peel(fr) == T.peel(to): return v
            if tf['k'] == 'array' and tt['k'] == 'array' and T.peel(tf['elem']) == T.peel(tt['elem']): return v
            if tt['k'] == 'adt':
                ad = T.adts.get(tt['path'])
                if tt['path'] == 'core::option::Option' and isinstance(v, Lin):
                    it = [x['t'] for x in tt['args'] if 't' in x][0]
                    if T[it].get('path') == 'core::num::nonzero::NonZero':
                        z = eq0(v); d = st.decide(z)
                        if d is None: raise Fork([z, b_not(z)])
                        return Agg(tt['path'], 0, (), to) if d else Agg(tt['path'], 1, (Agg('core::num::nonzero::NonZero', None, (v,), it),), to)
                if tt['path'] in ('core::num::nonzero::NonZero',) and isinstance(v, Lin): return Agg(tt['path'], None, (v,), to)
                if tf['k'] in ('ptr', 'ref') and isinstance(v, Ptr):
                    if tt['path'] == 'core::ptr::non_null::NonNull': return Agg(tt['path'], None, (v,), to)
                    return v
            if tf['k'] == 'adt' and tt['k'] in ('int', 'char'):
                x = self.unwrap_ptr(st, v)
                if isinstance(x, Lin): return x
            if tf['k'] == 'array' and tt['k'] in ('int', 'float') and isinstance(v, Seq): return self.from_ne(st, v, to)
            if tf['k'] in ('int', 'float') and tt['k'] == 'array' and T.s(tt['elem']) == 'u8': return self.to_ne(st, v, fr)
            if tf['k'] == 'float' or tt['k'] == 'float':
                return self.bitcast(v, fr, to)
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat') or kind.startswith('FloatToFloat'):
            return self.mkv('cast', v, T.s(to), ty=to)
        if kind.startswith('PointerExpose'): return self.mkv('addr', v, ty=to)
        raise Unsupported('cast %s %s -> %s' % (kind, tf['s'], tt['s']))
    def bitcast(self, v, fr, to):
        if isinstance(v, Lin) and v.atom() is not None: v_ = v.atom()
        else: v_ = v
        if isinstance(v_, A) and v_.key[0] == 'app' and v_.key[1] == 'bitcast' and v_.key[3] == self.T.s(to):
            x = v_.key[2]
            return L(x) if isinstance(x, A) and self.T.is_int(to) else x
        return self.mkv('bitcast', v, self.T.s(fr), self.T.s(to), ty=to)
    def b2i(self, b):
        if b.n[0] == 't': return ONE
        if b.n[0] == 'f': return ZERO
        return L(app('b2i', b, lo=0, hi=1))
    def ptr_cast(self, st, v, f, t, ty):
        v = self.unwrap_ptr(st, v)
        if not isinstance(v, Ptr): return v
        if f is None or t is None: return Ptr(v.cell, v.proj, v.meta, ty)
        T = self.T; f = T.peel(f); t = T.peel(t); tf, tt = T[f], T[t]
        proj, meta = v.proj, v.meta
        if tt['k'] == 'array' and tf['k'] != 'array':
            # pointer to first element -> pointer to array
            if proj and proj[-1][0] == 'idx':
                if proj[-1][1] == ZERO: return Ptr(v.cell, proj[:-1], None, ty)
                raise Unsupported('array view at offset')
        elif tf['k'] == 'array' and tt['k'] not in ('array',):
            e = T.peel(tf['elem'])
            proj = proj + (('idx', ZERO),); meta = None
        elif tf['k'] in ('slice', 'str') and tt['k'] not in ('slice', 'str'):
            meta = None
            if tt['k'] == 'adt' and T.adts.get(tt['path'], {}).get('kind') == 'struct' and tt['path'] not in self.virt and T[t].get('vf') and len(T[t]['vf'][0]) == 1: pass
        elif tf['k'] == 'adt' and f != t and tt['k'] != 'adt':
            # peel single-field structs
            cur = f; pr = proj
            for _ in range(4):
                d = T[cur]
                if d['k'] == 'adt' and d.get('vf') and len(d['vf']) == 1 and d['path'] not in self.virt:
                    nz = [i for i, x in enumerate(d['vf'][0]) if not self.zst(x)]
                    if len(nz) == 1: pr = pr + (('f', nz[0]),); cur = T.peel(d['vf'][0][nz[0]]); 
                    else: break
                elif d['k'] == 'adt' and d['path'] in self.virt and d['path'] in SINGLE: pr = pr + (('f', 0),); cur = T.peel([x['t'] for x in d['args'] if 't' in x][0])
                else: break
                if cur == t: return Ptr(v.cell, pr, meta, ty)
        return Ptr(v.cell, proj, meta, ty)
    def unsize(self, st, v, fr, to):
        T = self.T
        def tail(ty):
            t = T[ty]
            if t['k'] in ('ref', 'ptr'): return t['to']
            a = [x['t'] for x in t.get('args', []) if 't' in x]
            return a[0] if a else None
        a, b = tail(fr), tail(to)
        if a is not None and b is not None:
            ta, tb = T[T.peel(a)], T[T.peel(b)]
            if ta['k'] == 'array' and tb['k'] == 'slice':
                n = T.const(ta['len'])
                def up(x):
                    if isinstance(x, Ptr): return Ptr(x.cell, x.proj + (('idx', ZERO),), n, to)
                    if isinstance(x, A):
                        e = self.expand(st, x)
                        if e is None: raise Unsupported('unsize ' + show(x))
                        return up(e)
                    if isinstance(x, Agg): return Agg(x.path, x.var, (up(x.f[0]),) + x.f[1:], to)
                    raise Unsupported('unsize ' + show(x))
                return up(v)
            if tb['k'] == 'dyn': return Ptr(v.cell, v.proj, v.meta, fr) if isinstance(v, Ptr) and ta['k'] != 'dyn' else v
        return v
    # ---------- little-endian views
    def to_le(self, st, v, ty):
        t = self.T[ty]; n = t['bits'] // 8
        if isinstance(v, Bn): v = self.b2i(v)
        return Seq(Lin(n), self.T.prim('u8'), ('vals', tuple(self.byte(v, i, n, t) for i in range(n))))
    def to_ne(self, st, v, ty):
        s = self.to_le(st, v, ty)
        return Seq(s.len, s.ety, ('vals', tuple(reversed(s.base[1])))) if BIG else s
    def from_ne(self, st, s, ty):
        if not BIG: return self.from_le(st, s, ty)
        n = self.T[ty]['bits'] // 8
        return self.from_le(st, [self.seq_read(st, s, Lin(n - 1 - i)) for i in range(n)], ty)
    def byte(self, v, i, n, t):
        if isinstance(v, Lin):
            c = v.const()
            if c is not None: return Lin((c >> (8 * i)) & 0xFF)
            if n == 1: return self.trunc(None, v, 8, False)
            return mk_byte(v, i, n)
        return L(app('byte', v, i, n, ty=self.T.prim('u8'), lo=0, hi=255))
    def from_le(self, st, s, ty):
        t = self.T[ty]; n = t['bits'] // 8
        bs = []
        for i in range(n):
            b = self.seq_read(st, s, Lin(i)) if isinstance(s, Seq) else s[i]
            if isinstance(b, Uninit): raise Unsupported('uninitialised byte')
            bs.append(b)
        cs = [b.const() if isinstance(b, Lin) else None for b in bs]
        if all(c is not None for c in cs):
            return self.int_const(int.from_bytes(bytes(cs), 'little'), ty)
        src = None
        for i, b in enumerate(bs):
            a = b.atom() if isinstance(b, Lin) else None
            if a is None or a.key[0] != 'app' or a.key[1] != 'byte' or a.key[3] != i or a.key[4] != n: src = None; break
            if src is None: src = a.key[2]
            elif src != a.key[2]: src = None; break
        if src is not None:
            if t['k'] == 'int':
                if isinstance(src, Lin): return self.trunc(st, src, t['bits'], t['signed'])
                return self.bitcast(src, src.ty, ty) if isinstance(src, A) and src.ty is not None else self.mkv('from_le', *bs, ty=ty)
            if t['k'] == 'float':
                if isinstance(src, A): return src if src.ty == ty else self.mkv('from_le', *bs, ty=ty)
        if t['k'] == 'int':
            if n == 1: return self.trunc(st, bs[0], 8, t['signed'])
            # bytes that are zero above: plain value of the low byte(s)
            if not t['signed'] or cs[-1] is not None and cs[-1] < 128:
                tot = Lin(0)
                for i, b in enumerate(bs): tot = tot + b.scale(1 << (8 * i))
                tot = self.merge_bytes(tot)
                if t['signed'] is False or True: return tot if not t['signed'] else self.trunc(st, tot, t['bits'], True)
        return self.mkv('from_le', *bs, ty=ty)
    def merge_bytes(self, tot):
        """sum of byte(v,i,n)*256^i over all i -> v mod 2^8n"""
        groups = {}
        for a, k in tot.t:
            if a.key[0] == 'app' and a.key[1] == 'byte' and isinstance(a.key[2], Lin): groups.setdefault((a.key[2], a.key[4]), {})[a.key[3]] = (a, k)
        for (src, n), g in groups.items():
            w = len(g); top = lin_bounds(src)
            if w < n and top[0] is not None and top[0] >= 0 and top[1] is not None and top[1] < 1 << (8 * w) and all(i in g for i in range(w)):
                b0 = g[0][1]
                if all(g[i][1] == b0 << (8 * i) for i in range(w)):
                    for i in range(w): tot = tot - Lin(0, ((g[i][0], g[i][1]),))
                    tot = tot + src.scale(b0)
            if len(g) == n:
                b0 = g[0][1]
                if all(g[i][1] == b0 << (8 * i) for i in range(n)):
                    for i in range(n): tot = tot - Lin(0, ((g[i][0], g[i][1]),))
                    tot = tot + self.trunc(None, src, 8 * n, False).scale(b0)
        return tot

    # ---------- obligations
    def site(self, st):
        fr = st.frames[-1]; b = self.bodies[fr.body]
        return {'fn': b['path'], 'file': b['file'], 'line': st.trace}
    def stack(self, st):
        return [self.bodies[f.body]['path'] for f in st.frames]
    def no_bools(self, st, n):
        """n with the 0/1 encodings of booleans in its sums replaced by their values (one path for each)"""
        if n[0] == 'not': return b_not(self.no_bools(st, n[1]))
        if n[0] in ('and', 'or'): return (b_and if n[0] == 'and' else b_or)(self.no_bools(st, n[1]), self.no_bools(st, n[2]))
        if n[0] not in ('ge', 'eq', 'ne'): return n
        mp = self.bool_values(st, n[1])
        return subst_n(n, mp) if mp else n
    def subst_bools(self, st, l): return subst(l, self.bool_values(st, l))
    def bool_values(self, st, l):
        bs = [a for a, _ in l.t if a.key[0] == 'app' and a.key[1] == 'b2i']
        mp = {}
        for a in bs:
            d = st.decide(a.key[2])
            if d is None: raise Fork([a.key[2].n, b_not(a.key[2].n)])
            mp[a] = ONE if d else ZERO
        return mp
    def obligation(self, st, kind, conds, detail=None):
        conds = [c if isinstance(c, tuple) else c.n for c in conds]
        conds = [self.no_bools(st, c) if st.decide(c) is None else c for c in conds]
        if not self.record:
            for c in conds:
                if st.decide(c) is False: raise Done('stop-obl')
                if st.decide(c) is None:
                    if not st.assume(c): raise Done('unreach')
            return
        for c in conds:
            d = st.decide(c)
            if d is True: self.add_obl(st, kind, 'ok', show_n(c if isinstance(c, tuple) else c.n) if detail is None else detail); continue
            n = c if isinstance(c, tuple) else c.n
            at = set()
            for x in children(Bn(n)): at |= atoms_of(x)
            self.refine(st, at)
            unk = any(a.unk or a.key[0] == 'app' and a.key[1] in OPAQUE and a.lo is not None for a in at) or bool(st.notes)
            self.add_obl(st, kind, 'undecided' if unk else 'fail', '%s%s   given %s%s' % ((detail + ': ') if detail else '', show_n(n), self.facts_str(st, at), ('  [notes: %s]' % '; '.join(st.notes[:3])) if st.notes else ''))
            if not st.assume(n): raise Done('violated', kind)
    def refine(self, st, at):
        """before an obligation counts as violated: the cases that the terms of the condition leave open"""
        known = set()
        for f in st.facts + st.nes: known |= atoms_of(f)
        for a in st.batoms: known |= atoms_of(a)
        for a in sorted(known | at, key=lambda a: a.id):
            if a.key[0] == 'app' and a.key[1] == 'trunc':
                l, m = a.key[2], 1 << a.key[3]; lo, hi = int_bounds(a.key[3], a.key[4])
                blo, bhi = lin_bounds(l)
                k0 = next((k for k in range(-2, 3) if st.ent(l - Lin(lo + k * m))), None) if blo is None or blo < lo - 2 * m else (blo - lo) // m
                k1 = next((k for k in range(2, -3, -1) if st.ent(Lin(hi + k * m) - l)), None) if bhi is None or bhi > hi + 2 * m else -((hi - bhi) // m)
                if k0 is None or k1 is None or k1 - k0 > 2: continue
                cs = [eq0(l - L(a) - Lin(k * m)) for k in range(k0, k1 + 1)]
                if any(st.decide(c) is True for c in cs): continue
                cs = [c for c in cs if st.decide(c) is not False]
                if not cs: raise Done('unreach')
                raise Fork(cs)
        for a in sorted(at, key=lambda a: a.id):
            if a.key[0] != 'app' or a.key[1] in ('trunc', 'div') or a.lo is None: continue
            for b in sorted(known | at, key=lambda a: a.id):
                if b is a or b.key[:2] != a.key[:2] or len(a.key) != len(b.key): continue
                df = [(x, y) for x, y in zip(a.key[2:], b.key[2:]) if x is not y and x != y]
                if len(df) != 1 or not isinstance(df[0][0], Lin) or not isinstance(df[0][1], Lin): continue
                c = eq0(df[0][0] - df[0][1])
                ints = a.lo is not None and b.lo is not None; e = eq0(L(a) - L(b))
                if ints and st.decide(c) is True and not st.ent_eq(L(a), L(b)): raise Fork([e])
                if st.decide(c) is None: raise Fork([b_and(c, e) if ints else c, b_not(c)])
    def wraps(self, st, op):
        """a plain operator overflows: a panic where overflow checks are on (code of the standard library is built without)"""
        b = self.bodies[st.frames[-1].body]
        if b['crate'] == 'oct' and not st.ghost.get('may_panic') and not st.ghost.get('ran_out'):
            self.add_obl(st, 'plain arithmetic does not overflow', 'undecided' if st.notes else 'fail', '%s overflows given %s' % (op, self.facts_str(st)))
    def facts_str(self, st, atoms=None):
        fs = [show(f) + '>=0' for f in st.facts if atoms is None or any(a in atoms for a, _ in f.t)]
        return '{' + ', '.join(fs[-int(__import__("os").environ.get("NF","8")):]) + '}'
    def lossy(self, st):
        """a loop summary gave something up on this path"""
        if '@summary' not in st.ghost: return False
        return bool(st.ghost.get('@lossy')) or any(a.unk for f in st.facts + st.nes for a, _ in f.t) or any(a.unk for a in st.batoms)
    def add_obl(self, st, kind, status, detail):
        if status == 'fail' and not self.models.consistent(self, st): raise Done('unreach')
        if status == 'fail' and self.lossy(st): status = 'undecided'
        if self.record: self.obls.append(Obl(kind, self.site(st), status, detail, self.stack(st)))

    # ---------- control
    def body_loops(self, b):
        r = self.loops.get(b)
        if r is None:
            r = find_loops(self.bodies[b]); self.loops[b] = r
        return r
    def start(self, body_id, args=None):
        st = State(); st.frames = []; st.mem = {}; st.facts = (); st.nes = (); st.batoms = {}; st.clauses = (); st.rec = {}; st.inp = {}; st.notes = (); st.ghost = {}; st.m = self; st.trace = 0
        b = self.bodies[body_id]
        fr = Frame(next(self.uid), body_id, None, None); st.frames.append(fr)
        for i in range(b['argc']):
            st.mem[self.lcell(fr, i + 1)] = args[i] if args else self.symv('arg%d' % (i + 1) if not b['locals'][i + 1][1] else b['locals'][i + 1][1], b['locals'][i + 1][0])
        return st
    def run(self, st, stop=None, base=0):
        """returns list of (kind, state, info); kind: ret | panic | <stop reason> | unsupported"""
        work = [st]; out = []
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
                if stop:
                    r = stop(s)
                    if r: out.append((r, s, None)); break
                fr = s.frames[-1]
                if fr.bb == PANIC_BB: out.append(('panic', s, s.ghost.get('@panic'))); break
                here = s.ghost.get('@here')
                if here is not None and here != (fr.uid, fr.bb, fr.si): del s.ghost['@here']; here = None
                if fr.si == 0 and fr.bb not in fr.active and here is None:
                    lp = self.body_loops(fr.body).get(fr.bb)
                    if lp is not None and self.unroll:
                        if not self.peel(s, fr, lp): out.append(('cut', s, None)); break
                    elif lp is not None:
                        import loops
                        try: res = loops.exec_loop(self, s, fr.bb, lp)
                        except Unsupported as u:
                            out.append(('unsupported', s, 'no summary: %s at %s' % (u, self.bodies[fr.body]['path']))); break
                        for kind, s2, info in res:
                            if kind == 'go': work.append(s2)
                            else: out.append((kind, s2, info))
                        break
                snap = s
                s = s.clone(); CUR[0] = s
                try:
                    r = self.step(s, base)
                except Fork as f:
                    try:
                        for c in f.conds: work.extend(self.split(snap, c))
                    except Unsupported as u:
                        snap.note('unsupported: %s' % u); out.append(('unsupported', snap, str(u)))
                    break
                except Done as d:
                    if d.kind != 'unreach': out.append((d.kind, s, d.info))
                    break
                except Unsupported as u:
                    s.note('unsupported: %s' % u)
                    out.append(('unsupported', s, '%s at %s:%s' % (u, self.bodies[s.frames[-1].body]['path'], s.trace)))
                    break
                if r is None: continue
                if r and isinstance(r, tuple) and r[0] == 'ret': out.append(('ret', s, r[1])); break
                work.extend(r); break
        return out
    def split(self, snap, c, depth=0):
        """the refinements of a state under a condition, which may have to be split further"""
        x = snap.clone()
        try: return [x] if x.assume(c) else []
        except Fork as g:
            if depth > 14: raise Unsupported('nested conditions')
            return [y for c2 in g.conds for y in self.split(snap, b_and(c2, c), depth + 1)]
    def peel(self, s, fr, lp):
        """another iteration of a loop that is followed without a summary; False once the bound is reached"""
        key = ('@n', fr.uid, fr.bb); now = (len(s.facts), len(s.nes), len(s.batoms))
        n, total, last = s.ghost.get(key, (0, 0, None))
        if last is not None and last != now: n += 1
        if n > self.unroll or total > 80: return False
        s.ghost[key] = (n, total + 1, now); s.ghost['@here'] = (fr.uid, fr.bb, 0)
        for k in [k for k in s.ghost if isinstance(k, tuple) and k[0] == '@n' and k[1] == fr.uid and k[2] in lp and k[2] != fr.bb]: del s.ghost[k]
        return True
    def notes_str(self, st): return ('  [notes: %s]' % '; '.join(st.notes[:4])) if st.notes else ''
    def step(self, st, base):
        fr = st.frames[-1]; body = self.bodies[fr.body]; blk = body['blocks'][fr.bb]
        if fr.si < len(blk['s']):
            s = blk['s'][fr.si]; fr.si += 1
            k = s[0]
            if k == '=':
                st.trace = s[4]
                self.write_place(st, s[1], self.rvalue(st, s[2], s[3]))
            elif k == 'setdiscr':
                v = self.read_place(st, s[1])
                self.write_place(st, s[1], Agg(getattr(v, 'path', '?'), s[2], getattr(v, 'f', ()), getattr(v, 'ty', None)))
            elif k == 'assume':
                v = self.operand(st, s[1])
                if not st.assume(v): raise Done('unreach')
            elif k == 'cno':
                st.trace = s[5]
                self.copy(st, self.operand(st, s[1]), self.operand(st, s[2]), self.operand(st, s[3]))
            elif k == 'dead':
                c = self.lcell(fr, s[1])
                st.mem.pop(c, None)
            return None
        t = blk['t']; k = t[0]
        if k == 'goto': fr.bb = t[1]; fr.si = 0; return None
        if k == 'switch':
            st.trace = t[5]
            v = self.operand(st, t[1]); res = []
            if isinstance(v, Bn): v = Bn(self.no_bools(st, v.n))
            if isinstance(v, Bn):
                cases = [(v.n if int(c) else b_not(v.n), b) for c, b in t[2]]
                oth = ('t',)
                for n, _ in cases: oth = b_and(oth, b_not(n))
            elif isinstance(v, Lin):
                tt = self.T[t[4]]; cases = []; oth = ('t',)
                for c, b in t[2]:
                    cv = self.int_const(c, t[4]); n = eq0(v - cv) if isinstance(cv, Lin) else ('f',)
                    at = v.atom()
                    if at is not None and at.key[0] == 'app' and at.key[1] == 'b2i': n = self.simp_cmp('Eq', v, cv).n
                    cases.append((n, b)); oth = b_and(oth, b_not(n))
                at = v.atom()
                if at is not None and at.key[0] == 'app' and at.key[1] == 'discr' and isinstance(at.key[2], A):
                    a = at.key[2]; have = [self.int_const(c, t[4]).const() for c, _ in t[2]]
                    if all(self.discr_val(a.ty, i) in have for i in self.variants(a.ty)): oth = ('f',)
            else: raise Unsupported('switch on ' + show(v))
            for n, b in cases + [(oth, t[3])]:
                if n[0] == 'f': continue
                if body['blocks'][b]['t'][0] == 'unreach' and not body['blocks'][b]['s']: continue
                x = st.clone()
                if x.assume(n):
                    x.frames[-1].bb = b; x.frames[-1].si = 0; res.append(x)
                    if n[0] == 't': break
            return res
        if k == 'ret':
            v = self.cell_value(st, self.lcell(fr, 0))
            bl = self.bodies[fr.body]
            if isinstance(v, Uninit) and self.T.s(bl['locals'][0][0]) == '()': v = UNIT
            if isinstance(v, Uninit) and self.zst(bl['locals'][0][0]): v = self.zst_val(bl['locals'][0][0])
            return self.do_return(st, v, base)
        if k == 'unreach':
            raise Done('unreach')
        if k == 'drop':
            st.trace = t[5]
            self.drop_place(st, t[1], t[4])
            fr.bb = t[2]; fr.si = 0; return None
        if k == 'assert':
            st.trace = t[6]
            v = self.operand(st, t[1]); n = v.n if t[2] else b_not(v.n)
            res = []
            x = st.clone()
            if x.assume(n): x.frames[-1].bb = t[4]; x.frames[-1].si = 0; res.append(x)
            d = st.decide(n)
            if d is not True:
                y = st.clone()
                if y.assume(b_not(n)): y.ghost['@panic'] = 'assert: ' + t[3]; y.frames[-1].bb = -1; res.append(y)
            if any(z.frames[-1].bb == -1 for z in res):
                goods = [z for z in res if z.frames[-1].bb != -1]; bads = [z for z in res if z.frames[-1].bb == -1]
                return self.panic_split(goods, bads)
            return res
        if k == 'call': return self.do_call(st, t, base)
        raise Unsupported('terminator ' + k)
    def panic_split(self, goods, bads):
        for b in bads: b.frames[-1].bb = PANIC_BB
        return goods + bads
    def do_return(self, st, v, base):
        fr = st.frames.pop()
        nl = len(self.bodies[fr.body]['locals'])
        if fr.post == 'keep': return ('ret', v)
        for l in range(nl): st.mem.pop((fr.uid << 10) + l, None)
        if fr.post is not None:
            v = fr.post(self, st, v)
        if len(st.frames) <= base and fr.dest is None: return ('ret', v)
        top = st.frames[-1]
        self.write_place(st, fr.dest, v)
        if fr.retbb is None: raise Done('unreach')
        top.bb = fr.retbb; top.si = 0
        return None
    def drop_place(self, st, pl, ty):
        try: v = self.read_place(st, pl)
        except Unsupported: return
        if isinstance(v, Uninit): return
        self.drop_value(st, v, ty)
    def drop_value(self, st, v, ty):
        if ty is None or self.T[ty].get('nd') is not False: st.emit('drops', ('dv', v, self.T.s(ty) if ty is not None else '?'))
        h = self.models.on_drop
        if h: h(self, st, v, ty)

    def rvalue(self, st, r, ty):
        k = r[0]
        if k == 'use': return self.operand(st, r[1])
        if k == 'repeat':
            v = self.operand(st, r[1]); n = self.T.const(r[2])
            return Seq(n, self.T[self.T.peel(ty)].get('elem'), ('uninit',) if isinstance(v, Uninit) else ('rep', v))
        if k in ('ref', 'rawptr'):
            self.dynty = None
            cell, proj, meta, cty = self.place(st, r[2])
            return Ptr(cell, proj, meta, self.dynty or ty)
        if k == 'cast': return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == 'bin': return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                if isinstance(v, Bn): return Bn(b_not(v.n))
                t = self.T[r[3]]
                if isinstance(v, Lin): return (-v + (-1)) if t['signed'] else (-v + ((1 << t['bits']) - 1))
            if r[1] == 'Neg':
                if isinstance(v, Lin):
                    t = self.T[r[3]]; x = self.fit(st, -v, r[3])
                    if x is not None: return x
                    d = ge0(-v + int_bounds(t['bits'], True)[1])
                    if st.decide(d) is None: raise Fork([d, b_not(d)])
                    self.wraps(st, 'Neg')
                    return self.trunc(st, -v, t['bits'], t['signed'])
                return self.mkv('neg', v, ty=r[3])
            if r[1] == 'PtrMetadata':
                v = self.unwrap_ptr(st, v)
                if isinstance(v, Ptr):
                    if v.meta is not None: return v.meta
                    return UNIT
            raise Unsupported('unop %s %s' % (r[1], show(v)))
        if k == 'discr':
            cell, proj, _, pty = self.place(st, r[1])
            v = self.proj_read(st, self.cell_value(st, cell), proj)
            if isinstance(v, Uninit) and pty is not None and self.T[self.T.peel(pty)]['k'] == 'adt':
                pty = self.T.peel(pty); ad = self.T.adts.get(self.T[pty]['path'])
                if ad and ad['kind'] == 'enum':
                    vs = self.variants(pty)
                    if len(vs) == 1: return Lin(self.discr_val(pty, vs[0]))
            if isinstance(v, Uninit): raise Unsupported('discriminant of uninit')
            return self.discr_of(st, v)
        if k == 'agg':
            kk = r[1]; ops = [self.operand(st, o) for o in r[2]]
            if kk[0] == 'tuple': return Agg('()', None, ops, ty)
            if kk[0] == 'array': return Seq(Lin(len(ops)), kk[1], ('vals', tuple(ops)))
            if kk[0] == 'adt':
                ad = self.T.adts.get(kk[1])
                if kk[1] in PEEL: return ops[0] if ops and not (isinstance(ops[0], Agg) and ops[0].path == '()') else self.uninit(kk[3])
                if ad and ad['kind'] == 'enum': return Agg(kk[1], kk[2], ops, kk[3])
                return Agg(kk[1], None, ops, kk[3])
            if kk[0] == 'closure': return Agg(kk[1], None, ops, kk[2])
            if kk[0] == 'rawptr':
                p = self.unwrap_ptr(st, ops[0])
                if isinstance(p, Ptr): return Ptr(p.cell, p.proj, ops[1] if isinstance(ops[1], Lin) else None, ty)
                raise Unsupported('raw pointer aggregate')
        raise Unsupported('rvalue ' + k)

    def uninit(self, ty):
        """uninitialised memory of a type: an array keeps its shape"""
        t = self.T[self.T.peel(ty)] if ty is not None else None
        if t is not None and t['k'] == 'array': return Seq(self.T.const(t['len']), t['elem'], ('uninit',))
        return UNINIT
    # ---------- copying between sequences
    def elem_ptr(self, st, p):
        """-> (cell, proj-without-index, index)"""
        p = self.unwrap_ptr(st, p)
        if not isinstance(p, Ptr): raise Unsupported('pointer ' + show(p))
        if p.proj and p.proj[-1][0] == 'idx': return p.cell, p.proj[:-1], p.proj[-1][1]
        return p.cell, p.proj, None
    def seq_at(self, st, cell, proj):
        v = self.proj_read(st, self.cell_value(st, cell), proj)
        if isinstance(v, A): v = self.expand(st, v) or v
        return v
    def copy(self, st, src, dst, n):
        sc, sp, si = self.elem_ptr(st, src); dc, dp, di = self.elem_ptr(st, dst)
        if si is None or di is None:
            if n.const() == 1:
                v = self.load(st, self.unwrap_ptr(st, src)); self.store(st, self.unwrap_ptr(st, dst), v); return
            if n.const() == 0: return
            raise Unsupported('copy between non-arrays')
        sv = self.seq_at(st, sc, sp); dv = self.seq_at(st, dc, dp)
        if not isinstance(sv, Seq) or not isinstance(dv, Seq): raise Unsupported('copy %s -> %s' % (show(sv), show(dv)))
        self.obligation(st, 'copy stays inside its source', [ge0(si), ge0(n), ge0(sv.len - si - n)])
        self.obligation(st, 'copy stays inside its destination', [ge0(di), ge0(dv.len - di - n)])
        self.check_init(st, sv, si, si + n, 'copied elements are initialised')
        st.mem[dc] = self.proj_write(st, self.cell_value(st, dc), dp, self.seq_blit(st, dv, di, sv, si, n))
    def seq_blit(self, st, dv, di, sv, si, n):
        c = n.const()
        if c is not None and c <= 32 and dv.base[0] in ('vals', 'rep') and not dv.layers and di.const() is not None:
            vals = list(dv.base[1]) if dv.base[0] == 'vals' else None
            if vals is None and dv.len.const() is not None and dv.len.const() <= 64: vals = [dv.base[1]] * dv.len.const()
            if vals is not None and di.const() + c <= len(vals):
                for j in range(c): vals[di.const() + j] = self.seq_read(st, sv, si + j)
                return Seq(dv.len, dv.ety, ('vals', tuple(vals)))
        if c == 0: return dv
        if st.ent_eq(di, ZERO) and st.ent_eq(n, dv.len) and st.ent_eq(si, ZERO) and st.ent_eq(n, sv.len):
            return Seq(dv.len, dv.ety, sv.base, sv.layers, sv.tag)
        return Seq(dv.len, dv.ety, dv.base, dv.layers + ((di, di + n, 'copy', (sv, si)),), None)
    def init_status(self, st, s, lo, hi):
        """True: [lo,hi) initialised; False: some element definitely not; None: unknown"""
        if st.ent(lo - hi): return True
        for l0, h0, k, p in reversed(s.layers):
            if st.ent(l0 - h0): continue
            if st.ent(h0 - hi) and st.ent(lo - l0):
                if k == 'fill': return False if isinstance(p[1], Uninit) else True
                return self.init_status(st, p[0], lo - l0 + p[1], hi - l0 + p[1])
            if st.ent(l0 - hi) or st.ent(lo - h0): continue
            # partial overlap
            if st.ent(h0 - hi):
                d = st.decide(ge0(l0 - lo))
                if d is True: hi = l0; 
                else: raise Fork([ge0(l0 - lo), b_not(ge0(l0 - lo))])
                if st.ent(lo - hi): return True
                continue
            if st.ent(lo - l0):
                d = st.decide(ge0(hi - h0))
                if d is True: lo = h0
                else: raise Fork([ge0(hi - h0), b_not(ge0(hi - h0))])
                if st.ent(lo - hi): return True
                continue
            # layer strictly inside or unknown order
            conds = [b_and(ge0(h0 - hi), ge0(lo - l0)), ge0(l0 - hi), b_and(b_not(ge0(l0 - hi)), ge0(lo - h0))]
            inside = b_and(b_not(ge0(l0 - hi)), b_and(b_not(ge0(lo - h0)), b_not(conds[0])))
            if st.decide(inside) is True:
                a = self.init_status(st, Seq(s.len, s.ety, s.base, s.layers[:s.layers.index((l0, h0, k, p))]), lo, l0) if not st.ent(lo - l0) else True
                b = self.init_status(st, Seq(s.len, s.ety, s.base, s.layers[:s.layers.index((l0, h0, k, p))]), h0, hi) if not st.ent(h0 - hi) else True
                return a and b
            raise Fork([c for c in conds + [inside] if st.decide(c) is not False])
        b = s.base
        if b[0] == 'uninit': return False
        if b[0] == 'prefix': 
            d = st.decide(ge0(b[2] - hi))
            if d is None: return False if True else None
            return d
        if b[0] == 'window':
            return st.ent(lo - b[2]) and st.ent(b[3] - hi)
        if b[0] == 'vals':
            return not any(isinstance(x, Uninit) for x in b[1])
        return True
    def check_init(self, st, s, lo, hi, what):
        r = self.init_status(st, s, lo, hi)
        if r is True: self.add_obl(st, what, 'ok', 'range [%s, %s)' % (show(lo), show(hi)))
        else:
            unk = bool(st.notes) or has_unk(s) or has_unk(lo) or has_unk(hi)
            self.add_obl(st, what, 'undecided' if unk else 'fail', 'range [%s, %s) of %s given %s' % (show(lo), show(hi), show(s), self.facts_str(st)))

    # ---------- calls
    def do_call(self, st, t, base):
        callee, args, argtys, dest, rety, target, unwind, fop, line, span = t[1:]
        st.trace = line
        vals = [self.operand(st, a) for a in args]
        return self.call(st, callee, vals, argtys, dest, rety, target, fop)
    def call(self, st, callee, vals, argtys, dest, rety, target, fop=None):
        k = callee['k']; path = callee['path']; rpath = callee.get('rpath', path)
        m = self.models.lookup(self, callee)
        if m is not None:
            self.models_used.add(rpath)
            r = m(self, st, callee, vals, argtys, rety)
            return self.finish(st, r, dest, target)
        b = callee.get('body')
        if k == 'item' and callee.get('dbody') is not None and callee.get('self') is not None and self.models.head(self, callee['self']) in self.models.ITERS:
            return self.push(st, callee['dbody'], vals, dest, target)
        if k == 'item' and callee.get('shadow') is not None:
            self.models_used.add(rpath)
            return self.push(st, callee['shadow'], vals, dest, target)
        if k == 'item' and b is not None:
            return self.push(st, b, vals, dest, target)
        if k in ('closure', 'closureonce') and b is not None:
            return self.push_closure(st, b, vals, dest, target)
        if k == 'ctor':
            ad = self.T.adts.get(callee['adt'])
            v = Agg(callee['adt'], callee['variant'] if ad and ad['kind'] == 'enum' else None, vals, callee['out'])
            return self.finish(st, v, dest, target)
        if k == 'fnptrshim' and callee.get('target'):
            # call_once(f, (args,)) on a fn item
            tup = vals[1]
            if isinstance(tup, A): tup = self.expand(st, tup)
            tys = self.T[argtys[1]].get('args', [None] * len(tup.f))
            return self.call(st, callee['target'], list(tup.f), tys, dest, rety, target)
        if callee.get('dbody') is not None and k == 'unresolved':
            return self.push(st, callee['dbody'], vals, dest, target)
        r = self.models.fallback(self, st, callee, vals, argtys, rety)
        return self.finish(st, r, dest, target)
    def finish(self, st, r, dest, target):
        if isinstance(r, list): raise Unsupported('list result')
        if isinstance(r, tuple) and r and r[0] == '@call':
            _, b, vals, post = r
            return self.push(st, b, vals, dest, target, post)
        if isinstance(r, tuple) and r and r[0] == '@callee':
            return self.call(st, r[1], r[2], r[3], dest, r[4], target)
        self.write_place(st, dest, r)
        if target is None: raise Done('unreach')
        fr = st.frames[-1]; fr.bb = target; fr.si = 0
        return None
    def push(self, st, b, vals, dest, target, post=None):
        if len(st.frames) > self.maxdepth: raise Unsupported('call depth')
        body = self.bodies[b]
        if body is None: raise Unsupported('no body')
        self.used_bodies.add(b)
        fr = Frame(next(self.uid), b, dest, target, post)
        sp = body.get('spread')
        if sp is not None and len(vals) == body['argc'] and False: pass
        for i, v in enumerate(vals): st.mem[self.lcell(fr, i + 1)] = v
        st.frames.append(fr)
        return None
    def push_closure(self, st, b, vals, dest, target):
        body = self.bodies[b]
        clo = vals[0]; tup = vals[1] if len(vals) > 1 else UNIT
        if isinstance(tup, A): tup = self.expand(st, tup)
        # closure body's first local: by value or by reference
        t1 = self.T[body['locals'][1][0]]
        if t1['k'] == 'ref' and not isinstance(clo, Ptr):
            clo = Ptr(self.new_cell(st, clo), (), None, body['locals'][1][0])
        elif t1['k'] != 'ref' and isinstance(clo, Ptr): clo = self.load(st, clo)
        return self.push(st, b, [clo] + list(tup.f), dest, target)

PANIC_BB = -1
SINGLE = set()

def mul(a, b):
    """product of two linear expressions as a linear expression over monomial atoms"""
    ca, cb = a.const(), b.const()
    if ca is not None: return b.scale(ca)
    if cb is not None: return a.scale(cb)
    r = Lin(a.c * b.c) + Lin(0, a.t).scale(b.c) + Lin(0, b.t).scale(a.c)
    for x, k in a.t:
        for y, q in b.t:
            r = r + L(mono(x, y)).scale(k * q)
    return r
def _facs(a): return list(a.key[2]) if a.key[0] == 'app' and a.key[1] == 'mul' else [a]
def mono(x, y):
    fs = tuple(sorted(_facs(x) + _facs(y), key=lambda a: a.id))
    lo = None
    if all(f.lo is not None and f.lo >= 0 for f in fs): lo = 0
    hi = None
    if lo == 0 and all(f.hi is not None for f in fs):
        hi = 1
        for f in fs: hi *= f.hi
    return app('mul', fs, lo=lo, hi=hi)
def _rb_mul(args, v):
    r = ONE
    for f in args[0]: r = mul(r, L(f) if isinstance(f, (A, Lin)) else f)
    return r
REBUILD['mul'] = _rb_mul
# operations on integers that the domain knows nothing of but their arguments: what they decide is not known
OPAQUE = {'op' + x for x in ('BitXor', 'BitOr', 'BitAnd', 'Shl', 'Shr', 'Div', 'Rem')} | {'and'}
def mk_trunc(l, bits, signed):
    lo, hi = int_bounds(bits, signed)
    blo, bhi = lin_bounds(l)
    if blo is not None and bhi is not None and blo >= lo and bhi <= hi: return l
    if not l.t:
        v = l.c & ((1 << bits) - 1)
        if signed and v >= 1 << (bits - 1): v -= 1 << bits
        return Lin(v)
    # reduce modulo 2^bits: drop inner truncations to at least as many bits
    m = 1 << bits; r = Lin(l.c % m if abs(l.c) >= m else l.c); ch = False
    for a, k in l.t:
        if a.key[0] == 'app' and a.key[1] == 'trunc' and a.key[3] >= bits:
            r = r + a.key[2].scale(k); ch = True
        elif k % m == 0: ch = True
        else: r = r + Lin(0, ((a, k),))
    if ch: return mk_trunc(r, bits, signed)
    return L(app('trunc', l, bits, signed, lo=lo, hi=hi))
REBUILD['trunc'] = lambda args, v: mk_trunc(args[0], args[1], args[2])
POW256 = {256 ** i for i in range(16)}
def mk_byte(l, i, n):
    if not l.t: return Lin((l.c >> (8 * i)) & 0xFF)
    # byte i of trunc(x, b>=8n) is byte i of x
    at = l.atom()
    if at is not None and at.key[0] == 'app' and at.key[1] == 'trunc' and at.key[3] >= 8 * n: return mk_byte(at.key[2], i, n)
    lo, hi = lin_bounds(l)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << (8 * i)): return ZERO
    if i == 0 and lo is not None and lo >= 0 and hi is not None and hi <= 255: return l
    if l.c == 0 and len(l.t) > 1 and len({k for _, k in l.t}) == len(l.t) and all(k in POW256 and a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi <= 255 for a, k in l.t):
        for a, k in l.t:
            if k == 256 ** i: return L(a)
        return ZERO
    return L(app('byte', l, i, n, lo=0, hi=255))
REBUILD['byte'] = lambda args, v: mk_byte(args[0], args[1], args[2]) if isinstance(args[0], Lin) else app('byte', *args, ty=v.ty, lo=0, hi=255)
def mk_shr(l, n, ty, t):
    # (v >> 8i) with byte structure is expressed through division
    lo, hi = lin_bounds(l)
    return L(app('shr', l, n, ty=ty, lo=None if lo is None else lo >> n, hi=None if hi is None else hi >> n))

def find_loops(body):
    """natural loops of the non-cleanup CFG: header -> set of blocks"""
    bl = body['blocks']
    def succ(i):
        t = bl[i]['t']; k = t[0]
        if k == 'goto': r = [t[1]]
        elif k == 'switch': r = [b for _, b in t[2]] + [t[3]]
        elif k == 'drop': r = [t[2]]
        elif k == 'call': r = [t[6]] if t[6] is not None else []
        elif k == 'assert': r = [t[4]]
        else: r = []
        return [x for x in r if not bl[x]['c']]
    preds = {}; order = []; state = {}; back = []
    stack = [(0, iter(succ(0)))]; state[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            preds.setdefault(m, set()).add(n)
            if state.get(m) == 1: back.append((n, m))
            elif m not in state:
                state[m] = 1; stack.append((m, iter(succ(m)))); break
        else:
            state[n] = 2; stack.pop(); order.append(n)
    loops = {}
    for n, h in back:
        s = loops.setdefault(h, {h}); todo = [n]
        while todo:
            x = todo.pop()
            if x in s: continue
            s.add(x); todo.extend(preds.get(x, ()))
    return loops
