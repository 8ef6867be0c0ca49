"""Loop summaries.  The first iterations are interpreted one after another; from how the states differ a closed form in
the iteration count is guessed, and then proved: one further iteration from the closed form at k must lead to the closed
form at k + 1.  Whatever does not is given up (an arbitrary value), so a summary covers every number of iterations."""
from terms import *
from interp import Fork, Done, Unsupported, Frame

class NoGen(Exception): pass
LOST = Agg('@lost', None, ())
MAXEXACT = 70
import os
DEBUG = os.environ.get('LOOPDEBUG')

def exec_loop(m, st, h, blocks):
    """st is at the header h of a loop it has not entered yet -> [(kind, state, info)]; kind 'go': continue behind the loop"""
    fr = st.frames[-1]; uid = fr.uid; depth = len(st.frames)
    n0 = st.ghost.get('@fresh', 0); outer = st.ghost.get('@iters', ()); left = st.ghost.get('@left')
    c0 = st.ghost.get('@loopn', 0) + 1
    lid = '%s@%d#%d' % (m.bodies[fr.body]['path'].split('::')[-1], h, c0) + ''.join('/' + x[0] for x in outer)
    def stop(s):
        f = s.frames[-1]; d = len(s.frames)
        if d == depth and f.uid == uid:
            if f.bb == h and f.si == 0:
                return 'back' if s.ghost['@left'] else None
            s.ghost['@left'] = True
            if f.bb not in blocks and f.bb >= 0: return 'exit'
        elif d > depth: s.ghost['@left'] = True
        return None
    def iterate(s0, k, record):
        s = s0.clone(); f = s.frames[-1]
        if h not in f.active: f.active = f.active + (h,)
        f.bb = h; f.si = 0
        s.ghost['@iters'] = outer + ((lid, k),); s.ghost['@fresh'] = n0; s.ghost['@loopn'] = c0; s.ghost['@left'] = False
        rec, m.record = m.record, m.record and record
        try: res = m.run(s, stop=stop, base=0)
        finally: m.record = rec
        backs = []; outs = []
        for kind, x, info in res:
            if kind == 'back': backs.append(x)
            elif kind == 'exit':
                f = x.frames[-1]; f.active = tuple(y for y in f.active if y != h)
                restore(x); outs.append(('go', x, None))
            else: outs.append((kind, x, info))
        return backs, outs
    def restore(x):
        for key, v in (('@iters', outer), ('@left', left)):
            if v is None or v == (): x.ghost.pop(key, None)
            else: x.ghost[key] = v
    level = [st]; outs = []; first = None; chain = [st]; n = 0
    while True:
        nxt = []; clean = True
        for s in level:
            b, o = iterate(s, Lin(n), True); nxt += b; outs += o
            if o: clean = False
        if n == 0: s1s = nxt; outs0 = list(outs)
        if not nxt: return outs
        n += 1; chain.append(nxt[0]); level = nxt[:6]
        exact = len(nxt) == 1 and clean
        if n >= 3 and not (exact and n < MAXEXACT): break
        if len(nxt) > 6: level = nxt[:1]; 
    return outs0 + summarise(m, st, s1s, chain[1:4], iterate, lid)

def wx():
    # atoms are interned per analysis: always look the bound position up again
    return mk(('app', 'wx'), None, 0, U63)
def abstract(v, pos):
    """v as a function of the position pos"""
    X = L(wx())
    if isinstance(v, Lin):
        if v == pos: return X
        r = v - pos
        if pos.t and len(r.t) < len(v.t) and all(x in v.t for x in pos.t): return X + abstract(r, pos)
        out = Lin(v.c)
        for a, k in v.t: out = out + L(abstract(a, pos)).scale(k)
        return out
    if isinstance(v, A) and v.key[0] == 'app' and v.key[1] != 'walk':
        # a position is the last argument of what is read there
        args = v.key[2:]
        if v.key[1] == 'elem': args = args[:1] + (abstract(args[1], pos),) if not pos.const() is not None or pos.t else args[:1] + (X + (args[1] - pos),)
        else: args = tuple(abstract(x, pos) if isinstance(x, (A, Lin)) else x for x in args)
        rb = REBUILD.get(v.key[1])
        return rb(args, v) if rb else app(v.key[1], *args, ty=v.ty, lo=v.lo, hi=v.hi, unk=v.unk)
    return v
def walk(root, start, step, i):
    """the position of a stream after i steps"""
    i = L(i)
    if i.c > 0 and i.c <= 8:
        p = walk(root, start, step, i + (-1))
        return p + subst(step, {wx(): p})
    if not i.t and i.c == 0: return start
    return L(app('walk', root, start, step, i, lo=0, hi=U63))
REBUILD['walk'] = lambda args, v: walk(args[0], args[1], args[2], args[3])
class Tmpl:
    def __init__(self, m, lid, states, bad, outer=()):
        self.m = m; self.lid = lid; self.s = states; self.bad = bad; self.K = app('it', lid, *[k for _, k in outer], lo=1, hi=U63); self.k = L(self.K); self.walks = {}; self.J = mk(('app', 'jt', lid), None, 0, U63)
    # value in terms of the iteration number: a at 1, b at 2
    def lost(self, path, a, ty=None):
        if isinstance(a, Lin):
            lo = hi = None
            return L(app('lost', self.lid, str(path), self.k, unk=True))
        if isinstance(a, Bn): return Bn(('atom', app('lost', self.lid, str(path), self.k, unk=True)))
        return LOST
    def leaf(self, path, a, b, c=None):
        """never fails: gives up what has no closed form"""
        if path in self.bad: return self.lost(path, a)
        if a is b or a == b: return a
        if isinstance(a, Agg) and isinstance(b, Agg) and a.path == b.path and a.var == b.var and len(a.f) == len(b.f):
            cf = c.f if isinstance(c, Agg) and len(c.f) == len(a.f) else (None,) * len(a.f)
            return Agg(a.path, a.var, [self.leaf(path + (i,), x, y, z) for i, (x, y, z) in enumerate(zip(a.f, b.f, cf))], a.ty)
        try:
            if isinstance(a, Seq) and isinstance(b, Seq): return self.seq(a, b, c)
            return self.gen(a, b)
        except NoGen:
            if DEBUG: print('LEAF', path, show(a)[:300], '|', show(b)[:300], '|', show(c)[:300])
            self.bad.add(path); return self.lost(path, a)
    def gen(self, a, b):
        if a is b or a == b: return a
        w = self.walks.get((a, b)) if isinstance(a, (Lin, A)) else None
        if w is not None: return w
        if isinstance(a, A) and isinstance(b, Lin): a = L(a)
        if isinstance(a, Lin) and isinstance(b, A): b = L(b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = b - a
            if not d.t: return a + (self.k + (-1)).scale(d.c)
            for (p, q), w in self.walks.items():
                x, y = a - p, b - q
                if p.t and len(x.t) < len(a.t) and len(y.t) < len(b.t): return w + self.gen(x, y)
            for s in self.s[1:]:
                for c in (0, 1, -1):
                    if s.ent_eq(d, Lin(c)): return a + (self.k + (-1)).scale(c)
            if len(a.t) != len(b.t): raise NoGen()
            r = Lin(a.c) + (self.k + (-1)).scale(b.c - a.c)
            ys = list(b.t)
            for x, kx in a.t:
                for y, ky in ys:
                    if kx == ky and (x is y): r = r + Lin(0, ((x, kx),)); ys.remove((y, ky)); break
                else:
                    for y, ky in ys:
                        if kx != ky: continue
                        try: g = self.gen(x, y)
                        except NoGen: continue
                        r = r + L(g).scale(kx); ys.remove((y, ky)); break
                    else: raise NoGen()
            return r
        if isinstance(a, A) and isinstance(b, A):
            if a.key[0] != 'app' or b.key[0] != 'app' or a.key[1] != b.key[1] or len(a.key) != len(b.key) or a.ty != b.ty: raise NoGen()
            args = tuple(self.arg(x, y) for x, y in zip(a.key[2:], b.key[2:]))
            rb = REBUILD.get(a.key[1])
            if rb: return rb(args, a)
            return app(a.key[1], *args, ty=a.ty, lo=a.lo if a.lo == b.lo else None, hi=a.hi if a.hi == b.hi else None, unk=a.unk)
        if type(a) is not type(b): raise NoGen()
        if isinstance(a, Bn): return Bn(self.node(a.n, b.n))
        if isinstance(a, Agg):
            if a.path != b.path or a.var != b.var or len(a.f) != len(b.f): raise NoGen()
            return Agg(a.path, a.var, [self.gen(x, y) for x, y in zip(a.f, b.f)], a.ty)
        if isinstance(a, Ptr):
            ca, cb = a.cell, b.cell
            if ca != cb:
                if isinstance(ca, tuple) and isinstance(cb, tuple) and ca[0] == cb[0] == 'deref' and ca[2:] == cb[2:]:
                    g = self.gen(ca[1], cb[1])
                    if isinstance(g, Lin): g = g.atom()
                    if not isinstance(g, A): raise NoGen()
                    ca = (ca[0], g) + ca[2:]
                else: raise NoGen()
            if len(a.proj) != len(b.proj): raise NoGen()
            pr = []
            for x, y in zip(a.proj, b.proj):
                if x == y: pr.append(x)
                elif x[0] == y[0] == 'idx': pr.append(('idx', self.gen(x[1], y[1])))
                else: raise NoGen()
            if (a.meta is None) != (b.meta is None): raise NoGen()
            return Ptr(ca, tuple(pr), None if a.meta is None else self.gen(a.meta, b.meta), a.ty)
        if isinstance(a, Seq): return self.seq(a, b, None)
        raise NoGen()
    def arg(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y): raise NoGen()
            return tuple(self.arg(p, q) for p, q in zip(x, y))
        if isinstance(x, (str, int, type(None))) or isinstance(y, (str, int, type(None))):
            if x == y: return x
            raise NoGen()
        return self.gen(x, y)
    def node(self, a, b):
        if a == b: return a
        if a[0] != b[0] or len(a) != len(b): raise NoGen()
        k = a[0]
        if k == 'ge': return ge0(self.gen(a[1], b[1]))
        if k == 'eq': return eq0(self.gen(a[1], b[1]))
        if k == 'ne': return b_not(eq0(self.gen(a[1], b[1])))
        if k == 'atom':
            g = self.gen(a[1], b[1])
            return ('atom', g if isinstance(g, A) else g.atom())
        return (k,) + tuple(self.node(x, y) for x, y in zip(a[1:], b[1:]))
    def tup(self, a, b):
        """event or stream entry"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): raise NoGen()
            return tuple(self.tup(x, y) for x, y in zip(a, b))
        if a is b or a == b: return a
        if isinstance(a, (str, int, type(None))) or isinstance(b, (str, int, type(None))): raise NoGen()
        return self.gen(a, b)
    def seq(self, a, b, c):
        n = self.gen(a.len, b.len)
        base = a.base if a.base == b.base else self.arg(a.base, b.base)
        tag = a.tag if a.tag == b.tag else None
        la, lb = a.layers, b.layers
        if len(la) == len(lb): return Seq(n, a.ety, base, tuple(self.layer(x, y) for x, y in zip(la, lb)), tag)
        if not isinstance(c, Seq): raise NoGen()
        lc = c.layers
        if lb[:len(la)] != la or lc[:len(lb)] != lb or len(lb) - len(la) != 1 or len(lc) - len(lb) != 1: raise NoGen()
        t = self.layer(lb[-1], lc[-1])          # layer that iteration i adds, in terms of i
        pre = la
        start = ONE
        if la:
            z = self.at(t, ZERO)
            if eqv(self.s[0], z, la[-1]): pre = la[:-1]; start = ZERO
        return Seq(n, a.ety, base, pre + (self.closed(t, start),), tag)
    def layer(self, x, y):
        if x[2] != y[2]: raise NoGen()
        if x[2] == 'fill':
            if x[3][0] is not None or y[3][0] is not None:
                if x != y: 
                    if x[3] != y[3]: raise NoGen()
                p = x[3]
            else: p = (None, self.gen(x[3][1], y[3][1]))
        else: p = (self.gen(x[3][0], y[3][0]), self.gen(x[3][1], y[3][1]))
        return (self.gen(x[0], y[0]), self.gen(x[1], y[1]), x[2], p)
    def at(self, v, i): return tsubst(v, {self.K: i})
    def closed(self, t, start):
        """layers of the iterations start .. K-1 as one"""
        lo, hi, kind, p = t
        w = hi - lo; d = self.at(lo, Lin(1)) - self.at(lo, ZERO)
        if w.t or d.t: raise NoGen()
        if kind == 'fill' and w.c == 1 and d.c in (1, -1) and p[0] is None:
            l0 = self.at(lo, ZERO); j = L(self.J)
            i = j - l0 if d.c == 1 else l0 - j
            tp = subst(p[1], {self.K: i}) if not isinstance(p[1], Uninit) else p[1]
            a, b = (self.at(lo, start), lo) if d.c == 1 else (self.at(lo, self.k + (-1)), self.at(lo, start) + 1)
            e = as_copy(tp, j)
            if e: return (a, b, 'copy', (e[0], a + e[1]))
            return (a, b, 'fill', (self.J, tp))
        if kind == 'fill' and p[0] is None and d.c == w.c and not (atoms_of(p[1]) & {self.K} if not isinstance(p[1], Uninit) else False):
            return (self.at(lo, start), lo, 'fill', (None, p[1]))
        if kind == 'copy' and d.c == w.c:
            if self.K in atoms_of(p[0]): raise NoGen()
            e = self.at(p[1], Lin(1)) - self.at(p[1], ZERO)
            if e.t or e.c != d.c: raise NoGen()
            return (self.at(lo, start), lo, 'copy', (p[0], self.at(p[1], start)))
        raise NoGen()
    def events(self, a, b, c):
        if a == b: return a
        if b[:len(a)] != a or c[:len(b)] != b: raise NoGen()
        x, y = b[len(a):], c[len(b):]
        if len(x) != len(y): raise NoGen()
        g = self.tup(x, y)
        j = self.J; pre = a; sh = 1
        z = self.at(g, ZERO)
        if len(pre) >= len(g) and eqv(self.s[0], z, pre[-len(g):]): pre = pre[:-len(g)]; sh = 0
        return pre + (('loop', self.k + (-sh), j, tuple(tsubst(e, {self.K: L(j) + sh}) for e in g)),)

def as_copy(v, i):
    """element i + c of a symbolic sequence -> (sequence, c)"""
    if isinstance(v, Lin): v = v.atom()
    if isinstance(v, A) and v.key[0] == 'app' and v.key[1] == 'elem' and isinstance(v.key[3], Lin):
        c = v.key[3] - i
        at = i.atom()
        if at is not None and (at in atoms_of(v.key[2]) or at in atoms_of(c)): return None
        return Seq(L(U63), v.ty, ('sym', v.key[2])), c
    return None
def tsubst(v, mp):
    if isinstance(v, tuple): return tuple(tsubst(x, mp) for x in v)
    if v is None or isinstance(v, (str, int, Uninit, FnV)): return v
    return subst(v, mp)

def eqv(s, x, y, d=0):
    """provably equal in state s"""
    if x is y: return True
    if d > 12: return False
    if isinstance(x, A) and isinstance(y, Lin): x = L(x)
    if isinstance(x, Lin) and isinstance(y, A): y = L(y)
    if type(x) is not type(y): return False
    if isinstance(x, Lin): return x == y or s.ent_eq(x, y) or s.cong(x, y)
    if isinstance(x, A): return x is y or s.cong(x, y)
    if isinstance(x, tuple): return len(x) == len(y) and all(eqv(s, p, q, d + 1) for p, q in zip(x, y))
    if isinstance(x, Agg): return x.path == y.path and x.var == y.var and len(x.f) == len(y.f) and all(eqv(s, p, q, d + 1) for p, q in zip(x.f, y.f))
    if isinstance(x, Bn):
        if x == y: return True
        if eqv(s, x.n, y.n, d + 1): return True
        p, q = s.decide(x), s.decide(y)
        return p is not None and p is q
    if isinstance(x, Ptr):
        if x.cell != y.cell and not (isinstance(x.cell, tuple) and isinstance(y.cell, tuple) and eqv(s, x.cell, y.cell, d + 1)): return False
        return eqv(s, x.proj, y.proj, d + 1) and eqv(s, x.meta, y.meta, d + 1)
    if isinstance(x, Seq):
        if not eqv(s, x.len, y.len, d + 1) or not eqv(s, x.base, y.base, d + 1): return False
        a, b = fold_layers(s, x.layers), fold_layers(s, y.layers)
        return len(a) == len(b) and all(eqv(s, p, q, d + 1) for p, q in zip(a, b))
    return x == y
def fold_layers(s, ls):
    out = []; flat = []
    for l in ls:
        w = (l[1] - l[0]).const()
        if l[2] == 'fill' and l[3][0] is not None and w is not None and 0 <= w <= 4:
            for i in range(w): flat.append((l[0] + i, l[0] + i + 1, 'fill', (None, subst(l[3][1], {l[3][0]: l[0] + i}) if not isinstance(l[3][1], Uninit) else l[3][1])))
        elif w == 0: continue
        else: flat.append(l)
    for l in flat:
        if l[2] == 'fill' and l[3][0] is None and not isinstance(l[3][1], Uninit) and (l[1] - l[0]).const() == 1:
            e = as_copy(l[3][1], Lin(0))
            if e: l = (l[0], l[1], 'copy', e)
        if out:
            p = out[-1]
            if p[2] == l[2] == 'fill' and p[3][0] is not None and l[3][0] is None and s.ent_eq(l[1] - l[0], ONE):
                if s.ent_eq(p[1], l[0]) and eqv(s, subst(p[3][1], {p[3][0]: l[0]}), l[3][1]): out[-1] = (p[0], l[1], 'fill', p[3]); continue
                if s.ent_eq(l[1], p[0]) and eqv(s, subst(p[3][1], {p[3][0]: l[0]}), l[3][1]): out[-1] = (l[0], p[1], 'fill', p[3]); continue
            if p[2] == l[2] == 'fill' and p[3][0] is None and l[3][0] is None and s.ent_eq(p[1], l[0]) and isinstance(l[3][1], Uninit) and isinstance(p[3][1], Uninit): out[-1] = (p[0], l[1], 'fill', p[3]); continue
            if p[2] == l[2] == 'copy' and s.ent_eq(p[1], l[0]) and eqv(s, p[3][0], l[3][0]) and s.ent_eq(p[3][1] + (p[1] - p[0]), l[3][1]): out[-1] = (p[0], l[1], 'copy', p[3]); continue
        out.append(l)
    return out
def fold_events(s, evs):
    """a loop followed by one more round of it is a longer loop"""
    import streams
    out = []; flat = []
    for e in evs:
        if isinstance(e, tuple) and e[0] == 'loop' and e[1].const() is not None and e[1].const() <= 4:
            for i in range(e[1].const()): flat.extend(streams.open_loop(e[1], e[2], e[3], Lin(i)))
        else: flat.append(e)
    for e in flat:
        out.append(e)
        for i in range(len(out) - 2, -1, -1):
            q = out[i]
            if isinstance(q, tuple) and q[0] == 'loop':
                n = len(q[3])
                if len(out) - 1 - i == n and eqv(s, tuple(streams.open_loop(q[1], q[2], q[3], q[1])), tuple(out[i + 1:])):
                    out[i:] = [('loop', q[1] + 1, q[2], q[3])]
                break
    return tuple(out)

def inter(states, f):
    r = f(states[0])
    for s in states[1:]:
        o = f(s); r = tuple(x for x in r if x in o)
    return r
def match_facts(T, xs, ys):
    """facts of iteration 1 and of iteration 2 -> facts in terms of the iteration"""
    out = []; used = set()
    for i, x in enumerate(xs):
        order = ([i] if i < len(ys) else []) + [j for j in range(len(ys)) if j != i]
        for j in order:
            if j in used: continue
            try: g = T.gen(x, ys[j])
            except NoGen: continue
            if isinstance(g, Lin) and T.at(g, Lin(2)) == ys[j]: out.append(g); used.add(j); break
    return out, [x for i, x in enumerate(xs) if not any(T.at(g, ONE) == x for g in out)]

def summarise(m, st, s1s, chain, iterate, lid):
    s1, s2, s3 = chain; bad = set(); drop_f = set(); drop_u = set(); drop_n = set(); breaks = []
    for rnd in range(12):
        T = Tmpl(m, lid, chain, bad, st.ghost.get('@iters', ()))
        P = s1.clone(); K = T.k
        P.facts = inter(s1s, lambda s: s.facts); P.nes = inter(s1s, lambda s: s.nes); P.clauses = inter(s1s, lambda s: s.clauses)
        P.batoms = {a: v for a, v in s1.batoms.items() if all(s.batoms.get(a) is v for s in s1s)}
        P.ghost = {a: v for a, v in s1.ghost.items() if all(a in s.ghost and s.ghost[a] == v for s in s1s)}
        P.notes = tuple(dict.fromkeys(n for s in s1s for n in s.notes))
        inv = []
        # positions in arbitrary inputs
        for key, a in s1.inp.items():
            b = s2.inp.get(key); c = s3.inp.get(key); z = st.inp.get(key)
            if a and b and c and a[0] == b[0] == c[0] == 'free' and a[1] != b[1] and (b[1] - a[1]).t:
                step = abstract(b[1] - a[1], a[1])
                if abstract(c[1] - b[1], b[1]) != step: continue
                if z and z[0] == 'free' and z[1] + subst(step, {wx(): z[1]}) == a[1]: w = walk(a[2], z[1], step, K)
                else: w = walk(a[2], a[1], step, K + (-1))
                T.walks[(a[1], b[1])] = w
                inv.append((step, key, w))
        try:
            forms = {'inp': {}, 'mem': {}, 'rec': {}}
            for key, a in s1.inp.items():
                b = s2.inp.get(key)
                try: forms['inp'][key] = T.tup(a, b) if b is not None and ('i', key) not in bad else ('lost',)
                except NoGen: bad.add(('i', key)); forms['inp'][key] = ('lost',)
            for key, a in s1.rec.items():
                b, c = s2.rec.get(key, ()), s3.rec.get(key, ())
                try: forms['rec'][key] = T.events(a, b, c) if ('r', key) not in bad else None
                except NoGen:
                    if DEBUG: import traceback; traceback.print_exc()
                    bad.add(('r', key)); forms['rec'][key] = None
            for key in s2.rec:
                if key not in s1.rec:
                    try: forms['rec'][key] = T.events((), s2.rec[key], s3.rec.get(key, ()))
                    except NoGen: forms['rec'][key] = None
        except NoGen: raise Unsupported('loop without a closed form')
        for key, f in forms['rec'].items():
            if f is None:
                if not str(key).startswith('@rec'): forms['rec'][key] = (('lost',),)
                else:
                    if DEBUG: print('NOGEN', key, '\n  ', s1.rec.get(key), '\n  ', s2.rec.get(key), '\n  ', s3.rec.get(key))
                    raise Unsupported('a loop writes in a way that has no closed form')
        for cell, a in s1.mem.items():
            b, c = s2.mem.get(cell), s3.mem.get(cell)
            if b is None or c is None: continue
            forms['mem'][cell] = T.leaf((cell,), a, b, c)
        P.mem = dict(forms['mem']); P.inp = dict(forms['inp']); P.rec = dict(forms['rec'])
        newx = [f for f in s2.facts if f not in s1.facts]; newy = [f for f in s3.facts if f not in s2.facts]
        fs, _ = match_facts(T, newx, newy)
        fs = [f for f in fs if f.t and f not in drop_f]              # facts of iteration i (T.K = i), at the header i = K - 1
        # facts that held on every path into iteration i
        us = []
        bx = {a: v for a, v in s2.batoms.items() if a not in s1.batoms}; by = {a: v for a, v in s3.batoms.items() if a not in s2.batoms}
        for a, v in bx.items():
            for b, w in by.items():
                if v is not w: continue
                try: g = T.gen(a, b)
                except NoGen: continue
                if isinstance(g, Lin): g = g.atom()
                if isinstance(g, A) and T.K in atoms_of(g) and (g, v) not in drop_u: us.append((g, v))
        ng, lostn = match_facts(T, [e for e in s2.nes if e not in s1.nes], [e for e in s3.nes if e not in s2.nes])
        un = [('ne', g) for g in ng if T.K in atoms_of(g)] + [('ge', g) for g in fs if any(a.key[0] == 'app' and a.key[1] not in ('walk', 'total') and T.K in atoms_of(a) for a, _ in g.t)]
        un = [n for n in un if n not in drop_n]
        lossy = set()
        for x in lostn + [f for f in newx if not any(T.at(g, ONE) == f for g in fs)]:
            for a in atoms_of(x):
                if a.key[0] == 'app' and a.key[1] in ('elem', 'in'): lossy.add(a.key[2])
        # base: the closed form at 1 covers every state after the first iteration
        again = False
        fs = [f for f in fs if all(s.ent(T.at(f, ZERO)) for s in s1s)]
        us = [(g, v) for g, v in us if all(s.batoms.get(T.at(g, ZERO)) is v for s in s1s)]
        un = [n for n in un if all(s.decide(subst_n(n, {T.K: ZERO})) is True for s in s1s)]
        for s in s1s:
            if check(m, T, P, s, ONE, bad): again = True
        if again: continue
        P.facts = tuple(P.facts); P.ghost['@summary'] = True
        def node(g, v): return ('atom', g) if v else ('not', ('atom', g))
        P.ghost['@univ'] = tuple(P.ghost.get('@univ', ())) + tuple((T.K, ZERO, K, node(g, v)) for g, v in us) + tuple((T.K, ZERO, K, n) for n in un)
        if lossy: P.ghost['@lossy'] = frozenset(P.ghost.get('@lossy', frozenset())) | frozenset(lossy)
        head = P.clone()
        if not head.add_fact(K + (-1)): return []
        dead = False
        for f in fs:
            if not head.add_fact(T.at(f, K + (-1))): dead = True
        if dead: return []
        for step, key, w in inv:
            if P.inp[key][0] != 'free': continue
            head.add_fact(L(app('total', P.inp[key][2], lo=0, hi=U63)) - w)
            q = w.atom()
            if q is not None and q.key[1] == 'walk':
                l = walk(q.key[2], q.key[3], q.key[4], q.key[5] + (-1)); e = w - l - subst(step, {wx(): l})
                head.add_fact(e); head.add_fact(-e)
        for a, v in list(head.batoms.items()):
            if not head.instantiate(('atom', a) if v else ('not', ('atom', a))): return []
        for f in head.facts:
            if not head.instantiate(('ge', f)): return []
        backs, _ = iterate(head, K, False)
        for s in backs:
            s.ghost['@univ'] = head.ghost['@univ']
            x = s.clone()
            if check(m, T, P, s, K + 1, bad):
                again = True
                if rnd < 2:
                    for h in first_breaks(T, head, x):
                        if h[0] not in [b[0] for b in breaks]: breaks.append(h)
            for f in fs:
                if not s.ent(f): drop_f.add(f); again = True
            for g, v in us:
                if s.batoms.get(g) is not v and s.decide(('atom', g)) is not v: drop_u.add((g, v)); again = True
            for n in un:
                if s.decide(n) is not True: drop_n.add(n); again = True
        if again: continue
        backs, outs = iterate(head, K, True)
        return outs + broken(T, breaks, iterate)
    raise Unsupported('no inductive closed form found for a loop')

def first_breaks(T, head, s):
    """the closed form fails in some later iteration: the states in which that happens for the first time"""
    out = []; K = T.K
    for f in s.facts:
        if f in head.facts: continue
        k = dict(f.t).get(K, 0)
        if k <= 0 or any(a is not K and K in atoms_of(a) for a, _ in f.t): continue
        h = head.clone(); n = -T.at(f, T.k + (-1)) + (-1)
        if all(a is K for a, _ in f.t):
            i = -(f.c // k)         # the least K with k*K + c >= 0
            out.append((i, pin(T, h, i)))
        elif h.add_fact(f) and h.add_fact(n): out.append((f, h))
    for a in set().union(*[atoms_of(v) for v in s.mem.values() if not isinstance(v, (str, Uninit))]) if s.mem else ():
        if a.key[0] != 'app' or a.key[1] not in ('trunc', 'and') or not isinstance(a.key[2], Lin): continue
        l = a.key[2]
        if [x for x, _ in l.t] != [K] or l.t[0][1] != 1: continue
        if a.key[1] == 'trunc': m = 1 << (a.key[3] - (1 if a.key[4] else 0))
        else:
            c = a.key[3].c if isinstance(a.key[3], Lin) and not a.key[3].t else None
            if c is None: continue
            m = 1
            while c & m: m <<= 1
        out.append((m - l.c, pin(T, head.clone(), m - l.c)))
    return [(i, h) for i, h in out if h is not None and not (isinstance(i, int) and i < 1)]
def pin(T, h, i):
    mp = {T.K: Lin(i)}
    for c, v in h.mem.items(): h.mem[c] = tsubst(v, mp) if not isinstance(v, str) else v
    for d in (h.inp, h.rec):
        for c, v in d.items(): d[c] = tsubst(v, mp)
    fs = h.facts; h.facts = ()
    h.nes = tuple(subst(x, mp) for x in h.nes); h.clauses = tuple(tuple(subst_n(n, mp) for n in c) for c in h.clauses)
    h.batoms = {subst(a, mp): v for a, v in h.batoms.items()}
    h.batoms = {(a.atom() if isinstance(a, Lin) else a): v for a, v in h.batoms.items()}
    h.batoms.pop(None, None)
    h.ghost['@univ'] = tuple((k, subst(lo, mp), subst(hi, mp), n) if k is T.K else (k, subst(lo, mp), subst(hi, mp), subst_n(n, mp)) for k, lo, hi, n in h.ghost.get('@univ', ()))
    for f in fs:
        if not h.add_fact(subst(f, mp)): return None
    return h
def broken(T, breaks, iterate):
    outs = []
    for i, h in breaks[:6]:
        k = Lin(i) if isinstance(i, int) else T.k
        level = [h]
        for n in range(2):
            nxt = []
            for s in level[:4]:
                b, o = iterate(s, k + n, True); outs += o; nxt += b
            level = nxt
    return outs

def check(m, T, P, s, at, bad):
    """does the closed form at `at` describe s?  gives up the components that it does not describe; True if any"""
    ch = False
    mp = {T.K: at}
    for cell, f in P.mem.items():
        v = s.mem.get(cell)
        if v is None: v = UNINIT
        if cmp_leaf(s, f, v, mp, (cell,), bad): ch = True
    for key, f in P.inp.items():
        if f == ('lost',): continue
        v = s.inp.get(key)
        if not eqv(s, tsubst(f, mp), v): bad.add(('i', key)); ch = True
    for key, f in P.rec.items():
        if f == (('lost',),): continue
        v = s.rec.get(key, ())
        x = fold_events(s, tsubst(f, mp)); y = fold_events(s, v)
        x, y = (tuple(e for e in z if not (isinstance(e, tuple) and e[0] == 'loop' and s.ent(-e[1]))) for z in (x, y))
        if not eqv(s, x, y): bad.add(('r', key)); ch = True
    return ch
def cmp_leaf(s, f, v, mp, path, bad):
    if path in bad or f is LOST: return False
    if isinstance(f, Agg) and isinstance(v, Agg) and f.path == v.path and f.var == v.var and len(f.f) == len(v.f):
        ch = False
        for i, (x, y) in enumerate(zip(f.f, v.f)):
            if cmp_leaf(s, x, y, mp, path + (i,), bad): ch = True
        return ch
    if isinstance(f, A) and f.key[0] == 'app' and f.key[1] == 'lost': return False
    if isinstance(f, Uninit) and isinstance(v, Uninit): return False
    if isinstance(f, Uninit) or isinstance(v, Uninit) or isinstance(f, FnV) or isinstance(v, FnV):
        if f is v: return False
        bad.add(path); return True
    if eqv(s, tsubst(f, mp), v): return False
    if DEBUG: print('CMP', path, show(tsubst(f, mp))[:500], '|', show(v)[:500])
    bad.add(path); return True
