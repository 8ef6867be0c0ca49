"""Abstract values of the MIR interpreter: linear integer expressions over atoms,
boolean conditions over them, aggregates, sequences with layered contents, pointers."""
import itertools

WORD = 64         # width of a pointer of the platform the facts are about
BIG = False       # whether it is big-endian
U63 = (1 << 63) - 1   # greatest size of an object
def configure(facts):
    """the platform, for all modules of the engine"""
    import sys
    w = facts.get('word', 64); big = facts.get('big', False)
    for n in ('terms', 'interp', 'models', 'loops', 'own', 'streams', 'fmts', 'lin'):
        x = sys.modules.get(n)
        if x is not None: x.WORD = w; x.BIG = big; x.U63 = (1 << (w - 1)) - 1

_ids = itertools.count(1)
_intern = {}

class A:
    """Atom: a symbol or an uninterpreted application. Hash-consed."""
    __slots__ = ('id', 'key', 'ty', 'lo', 'hi', 'unk', 'atoms', 'extra')
    def __repr__(self): return show(self)

def _unk_of(args):
    for a in args:
        if isinstance(a, A) and a.unk: return True
        if isinstance(a, (Lin, Bn, Agg, Seq, Ptr)) and has_unk(a): return True
    return False

def mk(key, ty=None, lo=None, hi=None, unk=False):
    a = _intern.get(key)
    if a is None:
        a = A(); a.id = next(_ids); a.key = key; a.ty = ty; a.lo = lo; a.hi = hi; a.unk = unk or (key[0] == 'app' and _unk_of(key[2:])); a.atoms = None; a.extra = None
        _intern[key] = a
    return a

def sym(name, ty=None, lo=None, hi=None, unk=False): return mk(('sym', name), ty, lo, hi, unk)
def app(fn, *args, ty=None, lo=None, hi=None, unk=False): return mk(('app', fn) + args, ty, lo, hi, unk)
_fresh = itertools.count(1)
CUR = [None]   # the state being stepped: names of fresh atoms are a function of its history, so that re-execution after a fork meets the same atoms
def fresh(name, ty=None, lo=None, hi=None, unk=False):
    st = CUR[0]
    if st is not None:
        n = st.ghost.get('@fresh', 0) + 1; st.ghost['@fresh'] = n
        it = st.ghost.get('@iters')
        if it:   # inside of a summarised loop: a function of the iteration
            return app('fresh', name, n, str((ty, lo, hi)), *[y for x in it for y in x], ty=ty, lo=lo, hi=hi, unk=unk)
        return mk(('sym', '%s#%d' % (name, n), ty, lo, hi), ty, lo, hi, unk)
    return mk(('sym', '%s#%d' % (name, next(_fresh))), ty, lo, hi, unk)

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self._h = None
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __hash__(self):
        if self._h is None: self._h = hash((self.c, self.t))
        return self._h
    def __repr__(self): return show(self)
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n: d[a] = n
            else: d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))
    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))
    def __sub__(self, o): return self + (-o)
    def scale(self, n):
        if n == 0: return Lin(0)
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))
    def const(self): return self.c if not self.t else None
    def atom(self): return self.t[0][0] if len(self.t) == 1 and self.c == 0 and self.t[0][1] == 1 else None

def L(x):
    if isinstance(x, Lin): return x
    if isinstance(x, A): return Lin(0, ((x, 1),))
    return Lin(int(x))
ZERO = Lin(0); ONE = Lin(1)

class Bn:
    """Boolean value."""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Bn) and self.n == o.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return show(self)
TRUE = Bn(('t',)); FALSE = Bn(('f',))

def b_not(n):
    k = n[0]
    if k == 't': return ('f',)
    if k == 'f': return ('t',)
    if k == 'not': return n[1]
    if k == 'ge': return ('ge', -n[1] + (-1))
    if k == 'eq': return ('ne', n[1])
    if k == 'ne': return ('eq', n[1])
    if k == 'and': return ('or', b_not(n[1]), b_not(n[2]))
    if k == 'or': return ('and', b_not(n[1]), b_not(n[2]))
    return ('not', n)
def b_and(a, b):
    if a[0] == 'f' or b[0] == 'f': return ('f',)
    if a[0] == 't': return b
    if b[0] == 't': return a
    if a == b: return a
    return ('and', a, b)
def b_or(a, b): return b_not(b_and(b_not(a), b_not(b)))
def _norm_sign(l):
    if l.t and l.t[0][1] < 0: return -l
    if not l.t and l.c < 0: return -l
    return l
def ge0(l):
    """l >= 0, folding constants and type bounds of single atoms"""
    if not l.t: return ('t',) if l.c >= 0 else ('f',)
    lo, hi = lin_bounds(l)
    if lo is not None and lo >= 0: return ('t',)
    if hi is not None and hi < 0: return ('f',)
    return ('ge', l)
def eq0(l):
    if not l.t: return ('t',) if l.c == 0 else ('f',)
    l = _norm_sign(l)
    lo, hi = lin_bounds(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return ('f',)
    return ('eq', l)
def lin_bounds(l):
    lo = hi = l.c
    for a, k in l.t:
        alo, ahi = a.lo, a.hi
        if k < 0: alo, ahi = ahi, alo
        lo = None if lo is None or alo is None else lo + alo * k
        hi = None if hi is None or ahi is None else hi + ahi * k
    return lo, hi

class Agg:
    """struct / tuple / enum value / closure"""
    __slots__ = ('path', 'var', 'f', 'ty', '_h')
    def __init__(self, path, var, f, ty=None): self.path = path; self.var = var; self.f = tuple(f); self.ty = ty; self._h = None
    def __eq__(self, o): return isinstance(o, Agg) and self.path == o.path and self.var == o.var and self.f == o.f
    def __hash__(self):
        if self._h is None: self._h = hash((self.path, self.var, self.f))
        return self._h
    def __repr__(self): return show(self)
    def with_f(self, i, v):
        f = list(self.f)
        while len(f) <= i: f.append(UNINIT)
        f[i] = v
        return Agg(self.path, self.var, f, self.ty)

class Uninit:
    def __repr__(self): return 'uninit'
UNINIT = Uninit()

class Seq:
    """sequence: len, element type, base content and layers written over it.
    base: ('uninit',) | ('sym', A) | ('rep', value) | ('vals', (values...)) | ('prefix', A, n) (elements >= n uninit)
          | ('app', fn, args) opaque generator
    layer: (lo, hi, kind, payload): kind 'fill' payload (atom, template) ; kind 'copy' payload (Seq, srclo)"""
    __slots__ = ('len', 'ety', 'base', 'layers', 'tag', '_h')
    def __init__(self, len, ety, base, layers=(), tag=None): self.len = len; self.ety = ety; self.base = base; self.layers = layers; self.tag = tag; self._h = None
    def __eq__(self, o): return isinstance(o, Seq) and self.len == o.len and self.base == o.base and self.layers == o.layers
    def __hash__(self):
        if self._h is None: self._h = hash((self.len, self.base, self.layers))
        return self._h
    def __repr__(self): return show(self)
    def add_layer(self, layer): return Seq(self.len, self.ety, self.base, self.layers + (layer,), self.tag)
    def with_len(self, n): return Seq(n, self.ety, self.base, self.layers, self.tag)

class Ptr:
    """cell + projections (+ metadata length for slices/str).  proj items: ('f',i) ('down',v) ('idx',Lin)"""
    __slots__ = ('cell', 'proj', 'meta', 'ty', '_h')
    def __init__(self, cell, proj=(), meta=None, ty=None): self.cell = cell; self.proj = proj; self.meta = meta; self.ty = ty; self._h = None
    def __eq__(self, o): return isinstance(o, Ptr) and self.cell == o.cell and self.proj == o.proj and self.meta == o.meta
    def __hash__(self):
        if self._h is None: self._h = hash((self.cell, self.proj, self.meta))
        return self._h
    def __repr__(self): return show(self)

class FnV:
    __slots__ = ('callee',)
    def __init__(self, callee): self.callee = callee
    def __repr__(self): return 'fn(%s)' % self.callee.get('path')

UTF8 = {}     # atom X -> length: the elements elem(X, 0..length) are valid UTF-8
NONUL = set() # atom X: the elements elem(X, _) in use are not NUL
UNIT = Agg('()', None, ())

def children(v):
    if isinstance(v, Lin):
        for a, _ in v.t: yield a
    elif isinstance(v, Bn):
        st = [v.n]
        while st:
            n = st.pop()
            for x in n[1:]:
                if isinstance(x, tuple): st.append(x)
                else: yield x
    elif isinstance(v, Agg):
        yield from v.f
    elif isinstance(v, Seq):
        yield v.len
        for x in v.base[1:]:
            if isinstance(x, tuple): yield from (y for y in x if not isinstance(y, (str, int)))
            elif not isinstance(x, (str, int)): yield x
        for lo, hi, k, p in v.layers:
            yield lo; yield hi
            for x in p:
                if not isinstance(x, (str, int)): yield x
    elif isinstance(v, Ptr):
        for p in v.proj:
            if p[0] == 'idx': yield p[1]
        if v.meta is not None: yield v.meta
        if isinstance(v.cell, tuple) and len(v.cell) > 1 and isinstance(v.cell[1], A): yield v.cell[1]
    elif isinstance(v, A):
        if v.key[0] == 'app':
            for x in v.key[2:]:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (A, Lin, Bn, Agg, Seq, Ptr)): yield y
                elif isinstance(x, (A, Lin, Bn, Agg, Seq, Ptr)): yield x

def atoms_of(v):
    """all atoms occurring (deeply) in v"""
    if isinstance(v, A) and v.atoms is not None: return v.atoms
    out = set()
    if isinstance(v, A): out.add(v)
    for c in children(v): out |= atoms_of(c)
    if isinstance(v, A): v.atoms = frozenset(out)
    return out

def has_unk(v): return any(a.unk for a in atoms_of(v))

REBUILD = {}   # fn -> python constructor(args tuple, ty, lo, hi, unk) used when substituting below an application

def subst(v, m):
    """replace atoms by Lin/values"""
    if v is None or isinstance(v, (Uninit, FnV, str, int)): return v
    if isinstance(v, Lin):
        r = Lin(v.c); ch = False
        for a, k in v.t:
            x = subst(a, m)
            if x is not a: ch = True
            r = r + L(x).scale(k) if isinstance(x, (A, Lin)) else r + Lin(0, ((a, k),))
        return r if ch else v
    if isinstance(v, A):
        if v in m: return m[v]
        if v.key[0] != 'app' or not (atoms_of(v) & m.keys()): return v
        def s(x):
            if isinstance(x, tuple): return tuple(s(y) for y in x)
            if isinstance(x, (A, Lin, Bn, Agg, Seq, Ptr)): return subst(x, m)
            return x
        args = tuple(s(x) for x in v.key[2:])
        rb = REBUILD.get(v.key[1])
        if rb: return rb(args, v)
        return app(v.key[1], *args, ty=v.ty, lo=v.lo, hi=v.hi, unk=v.unk)
    if isinstance(v, Bn): return Bn(subst_n(v.n, m))
    if isinstance(v, Agg):
        f = tuple(subst(x, m) for x in v.f)
        return Agg(v.path, v.var, f, v.ty) if any(a is not b for a, b in zip(f, v.f)) else v
    if isinstance(v, Seq):
        def sb(x):
            if isinstance(x, tuple): return tuple(sb(y) for y in x)
            return subst(x, m)
        return Seq(subst(v.len, m), v.ety, sb(v.base), tuple((subst(lo, m), subst(hi, m), k, tuple(subst(x, m) for x in p)) for lo, hi, k, p in v.layers), v.tag)
    if isinstance(v, Ptr):
        cell = v.cell
        if isinstance(cell, tuple) and len(cell) > 1 and isinstance(cell[1], A):
            x = subst(cell[1], m)
            if isinstance(x, Lin): x = x.atom() or cell[1]
            if isinstance(x, A): cell = (cell[0], x) + cell[2:]
        return Ptr(cell, tuple((p[0], subst(p[1], m)) if p[0] == 'idx' else p for p in v.proj), subst(v.meta, m), v.ty)
    return v

def subst_n(n, m):
    k = n[0]
    if k == 'ge': return ge0(subst(n[1], m))
    if k == 'eq': return eq0(subst(n[1], m))
    if k == 'ne': return b_not(eq0(subst(n[1], m)))
    if k == 'atom':
        x = subst(n[1], m)
        return x.n if isinstance(x, Bn) else ('atom', x)
    if k == 'not': return b_not(subst_n(n[1], m))
    if k == 'and': return b_and(subst_n(n[1], m), subst_n(n[2], m))
    if k == 'or': return b_or(subst_n(n[1], m), subst_n(n[2], m))
    return n

def show(v, d=0):
    if d > 7: return '..'
    if isinstance(v, A):
        if v.key[0] == 'sym': return str(v.key[1])
        return '%s(%s)' % (v.key[1], ', '.join(show(x, d + 1) if not isinstance(x, (str, int)) else str(x) for x in v.key[2:]))
    if isinstance(v, Lin):
        p = []
        for a, k in v.t: p.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show(a, d + 1))
        if v.c or not p: p.append(str(v.c))
        return ' + '.join(p)
    if isinstance(v, Bn): return show_n(v.n, d)
    if isinstance(v, Agg):
        n = v.path.split('::')[-1] + ('' if v.var is None else '#%d' % v.var)
        return '%s{%s}' % (n, ', '.join(show(x, d + 1) for x in v.f))
    if isinstance(v, Seq):
        b = v.base[0] if v.base[0] == 'uninit' else '%s %s' % (v.base[0], ', '.join(show(x, d + 1) for x in v.base[1:]))
        ls = ''.join(' [%s..%s]<-%s' % (show(lo, d + 1), show(hi, d + 1), (show(p[1], d + 1) if k == 'fill' else 'copy(%s@%s)' % (show(p[0], d + 1), show(p[1], d + 1)))) for lo, hi, k, p in v.layers)
        return 'seq<%s>(%s%s)' % (show(v.len, d + 1), b, ls)
    if isinstance(v, Ptr):
        s = '&%s' % (v.cell if not isinstance(v.cell, tuple) else '%s:%s' % (v.cell[0], show(v.cell[1], d + 1)))
        for p in v.proj: s += '[%s]' % show(p[1], d + 1) if p[0] == 'idx' else '.%s' % p[1] if p[0] == 'f' else '@%s' % p[1]
        if v.meta is not None: s += '/%s' % show(v.meta, d + 1)
        return s
    if isinstance(v, tuple): return '(%s)' % ', '.join(show(x, d + 1) for x in v)
    return repr(v)
def show_n(n, d=0):
    k = n[0]
    if k in ('t', 'f'): return {'t': 'true', 'f': 'false'}[k]
    if k == 'ge': return '%s >= 0' % show(n[1], d + 1)
    if k == 'eq': return '%s == 0' % show(n[1], d + 1)
    if k == 'ne': return '%s != 0' % show(n[1], d + 1)
    if k == 'atom': return show(n[1], d + 1)
    if k == 'not': return '!(%s)' % show_n(n[1], d)
    return '(%s %s %s)' % (show_n(n[1], d), k, show_n(n[2], d))
