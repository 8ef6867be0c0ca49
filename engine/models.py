"""Meanings of the library functions that are not analysed through their own bodies, and of the
specification vocabulary (crate vrt)."""
from terms import *
import interp
from interp import Fork, Done, Unsupported, PEEL, SINGLE
import streams

M = {}        # rpath -> fn
MS = {}       # (rpath, self head) -> fn
PANICS = {}

def model(*paths):
    def d(f):
        for p in paths: M[p] = f
        return f
    return d
def smodel(path, *heads):
    def d(f):
        for h in heads: MS[(path, h)] = f
        return f
    return d

VEC = 'alloc::vec::Vec'; STRING = 'alloc::string::String'; CSTRING = 'alloc::ffi::c_str::CString'
LIST = 'alloc::collections::linked_list::LinkedList'
BOX = 'alloc::boxed::Box'; RC = 'alloc::rcs::rc::Rc'; ARC = 'alloc::rcs::arc::Arc'
HMAP = 'std::collections::hash::map::HashMap'; HSET = 'std::collections::hash::set::HashSet'
COW = 'alloc::borrow::Cow'
OPTION = 'core::option::Option'; RESULT = 'core::result::Result'
DUR = 'core::time::Duration'

# ---------------------------------------------------------------- helpers
def head(m, ty):
    if ty is None: return None
    t = m.T[ty]
    if t['k'] == 'adt': return t['path']
    if t['k'] in ('ref', 'ptr'): return t['k']
    if t['k'] == 'int': return 'int'
    return t['k']
def targs(m, ty): return [x['t'] for x in m.T[ty].get('args', []) if isinstance(x, dict) and 't' in x] if m.T[ty]['k'] == 'adt' else m.T[ty].get('args', [])
def some(m, rety, v): return Agg(OPTION, 1, (v,), rety)
def none(m, rety): return Agg(OPTION, 0, (), rety)
def ok(m, rety, v): return Agg(RESULT, 0, (v,), rety)
def err(m, rety, v): return Agg(RESULT, 1, (v,), rety)
def arg0(m, rety): return targs(m, rety)[0]
def bn_of(m, st, v):
    if isinstance(v, Bn): return v
    if isinstance(v, A): return Bn(('atom', v))
    raise Unsupported('bool ' + show(v))
def agg(m, st, v):
    if isinstance(v, A):
        e = m.expand(st, v)
        if e is None: e = m.split_variants(st, v)
        if e is None: raise Unsupported('structure of %s : %s' % (show(v), m.T.s(v.ty)))
        return e
    return v
def isptr(v): return isinstance(v, Ptr)
def deref(m, st, v):
    p = m.unwrap_ptr(st, v)
    if not isptr(p): raise Unsupported('pointer ' + show(v))
    return p
def loadv(m, st, p):
    return m.load(st, deref(m, st, p))
def slice_parts(m, st, p):
    """pointer to slice/str/array -> (cell, proj without index, lo, n)"""
    p = deref(m, st, p)
    if p.meta is not None and p.proj and p.proj[-1][0] == 'idx': return p.cell, p.proj[:-1], p.proj[-1][1], p.meta
    v = m.proj_read(st, m.cell_value(st, p.cell), p.proj)
    if isinstance(v, A): v = m.expand(st, v) or v
    if isinstance(v, Seq): return p.cell, p.proj, ZERO, v.len
    raise Unsupported('slice ' + show(p))
def mkslice(cell, proj, lo, n, ty=None): return Ptr(cell, proj + (('idx', lo),), n, ty)
def seq_of(m, st, cell, proj):
    v = m.proj_read(st, m.cell_value(st, cell), proj)
    if isinstance(v, A): v = m.expand(st, v) or v
    if not isinstance(v, Seq): raise Unsupported('sequence ' + show(v))
    return v
def subseq(m, st, s, lo, n):
    """value of s[lo..lo+n] as a sequence of its own"""
    if st.ent_eq(lo, ZERO) and st.ent_eq(n, s.len): return s
    if st.ent_eq(lo, ZERO) and not s.layers and s.base[0] in ('sym',): return Seq(n, s.ety, ('uninit',), ((ZERO, n, 'copy', (s, lo)),), s.tag if st.ent_eq(n, s.len) else None)
    return Seq(n, s.ety, ('uninit',), ((ZERO, n, 'copy', (s, lo)),), None)
def slice_value(m, st, p):
    cell, proj, lo, n = slice_parts(m, st, p)
    s = seq_of(m, st, cell, proj)
    return subseq(m, st, s, lo, n)
def new_heap_slice(m, st, s, tag=None):
    if tag: s = Seq(s.len, s.ety, s.base, s.layers, tag)
    return m.new_cell(st, s)
def decided(m, st, n):
    d = st.decide(n)
    if d is None: raise Fork([n if isinstance(n, tuple) else n.n, b_not(n if isinstance(n, tuple) else n.n)])
    return d
def panic(st, msg): raise Done('panic', msg)
def ord_val(m, i): return Agg('core::cmp::Ordering', i, (), m.T.find('std::cmp::Ordering') or m.T.find('core::cmp::Ordering'))

def lookup(m, callee):
    k = callee['k']
    rp = callee.get('rpath', callee['path'])
    if callee.get('self') is not None:
        f = MS.get((rp, head(m, callee['self'])))
        if f: return f
    if rp in PANICS or callee['path'] in PANICS: return do_panic
    f = M.get(rp) or M.get(callee['path'])
    if f is not None:
        if isinstance(f, tuple):
            if k in f[0]: return f[1]
            return None
        return f
    if rp.endswith('::precondition_check') or rp.startswith('core::ub_checks'): return noop
    if k == 'unresolved' and callee.get('dbody') is None or k == 'virtual':
        return UNRES.get(rp)
    return None
UNRES = {}
def unres(*paths):
    def d(f):
        for p in paths: UNRES[p] = f
        return f
    return d

def do_panic(m, st, c, v, at, rt): panic(st, c.get('rpath', c['path']))
for p in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_nounwind', 'core::panicking::unreachable_default_msg',
          'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::panic_display', 'core::panicking::panic_str_2015', 'core::panicking::assert_failed', 'core::panicking::assert_failed_inner', 'core::panicking::panic_bounds_check',
          'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::result::unwrap_failed::unwrap_failed_inner', 'core::cell::panic_already_borrowed', 'core::cell::panic_already_mutably_borrowed',
          'core::cell::lazy::panic_poisoned', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::panicking::panic_const::panic_const_add_overflow',
          'std::process::abort', 'core::intrinsics::abort', 'alloc::alloc::handle_alloc_error', 'alloc::raw_vec::capacity_overflow',
          'core::slice::index::slice_index_fail', 'core::str::slice_error_fail'):
    PANICS[p] = 1
def noop(m, st, c, v, at, rt): return UNIT

def fallback(m, st, c, v, at, rt):
    rp = c.get('rpath', c['path'])
    m.unmodelled.add(rp)
    st.note('no model of ' + rp)
    st.ghost['@opaque'] = True
    if m.T[rt]['k'] == 'never': raise Done('unreach')
    if m.T[rt]['k'] == 'tuple' and not m.T[rt]['args']: return UNIT
    return m.fresh('r:' + rp.split('::')[-1], rt, unk=True)

def on_drop(m, st, v, ty):
    if st.ghost.get('@held'): release(st, v)

# ---------------------------------------------------------------- borrows and locks
GUARDS = {'std::sync::poison::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockReadGuard', 'std::sync::poison::rwlock::RwLockWriteGuard', 'core::cell::Ref', 'core::cell::RefMut'}
HANDLES = {'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Weak', 'alloc::rcs::arc::Weak'}
EXCLUSIVE = {'std::sync::poison::rwlock::RwLockWriteGuard', 'core::cell::RefMut'}
SHARED = 'encoding takes shared access only'
def held(st, guard):
    """a guard comes into being"""
    q = guard.f[0]; key = (guard.path, q.cell, q.proj)
    if guard.path in EXCLUSIVE and '@shared' in st.ghost: shared_write(None, st, q.cell, q.proj, 'locked exclusively')
    st.ghost['@held'] = st.ghost.get('@held', ()) + (key,)
    return guard
def release(st, v, d=0):
    if not isinstance(v, Agg) or d > 6: return
    if v.path in GUARDS and v.f and isinstance(v.f[0], Ptr):
        key = (v.path, v.f[0].cell, v.f[0].proj); h = list(st.ghost.get('@held', ()))
        if key in h: h.remove(key); st.ghost['@held'] = tuple(h)
        return
    if v.path in HANDLES and v.f:
        key = (v.path, v.f[0], ()); h = list(st.ghost.get('@held', ()))
        if key in h: h.remove(key); st.ghost['@held'] = tuple(h)
        return
    for x in v.f: release(st, x, d + 1)
def counted(st, h):
    """another handle of a shared value comes into being"""
    st.ghost['@held'] = st.ghost.get('@held', ()) + ((h.path, h.f[0], ()),)
    return h
def where(p):
    """a place as a term"""
    a = [p.cell[1] if isinstance(p.cell, tuple) and p.cell[0] == 'deref' else str(p.cell)]
    for e in p.proj: a += list(e)
    return a
MACHINE = []
def shared_write(m, st, cell, proj, how):
    """what is reached through the arguments of the contract is changed although only shared access was given"""
    if not (isinstance(cell, tuple) and cell[0] == 'deref'): return
    m = m or MACHINE[-1]
    m.add_obl(st, SHARED, 'undecided' if st.notes else 'fail', '%s is %s' % (show(Ptr(cell, proj)), how))
@model('vrt::shared_only')
def _(m, st, c, v, at, rt):
    MACHINE[:] = [m]; st.ghost['@shared'] = True; st.ghost['@held'] = (); m.add_obl(st, SHARED, 'ok', ''); return UNIT
@model('vrt::nothing_held')
def _(m, st, c, v, at, rt):
    h = st.ghost.get('@held', ())
    m.add_obl(st, text(m, st, v[0]), 'ok' if not h else 'undecided' if st.notes else 'fail', ', '.join('%s of %s is never dropped' % (a.split('::')[-1], show(Ptr(b, p) if a in GUARDS else b)) for a, b, p in h))
    return UNIT

@model('vrt::allocate_at_most')
def _(m, st, c, v, at, rt):
    st.ghost['@alloc'] = (v[0], text(m, st, v[1])); return UNIT
def allocated(m, st, n):
    """heap memory for n items is taken: where the contract limits it, it has to be within the limit"""
    a = st.ghost.get('@alloc')
    if a is None: return
    n = n if isinstance(n, Lin) else Lin(n)
    m.obligation(st, a[1], [ge0(a[0] - n)], 'memory for %s is allocated, allowed %s' % (show(n), show(a[0])))

# ---------------------------------------------------------------- the specification vocabulary
@model('vrt::any')
def _(m, st, c, v, at, rt): return m.fresh('any', rt)
@model('vrt::assume')
def _(m, st, c, v, at, rt):
    if not st.assume(bn_of(m, st, v[0])): raise Done('unreach')
    return UNIT
def text(m, st, p):
    p = deref(m, st, p); s = st.mem.get(p.cell)
    try: return bytes(x.c for x in s.base[1]).decode()
    except Exception: return '?'
@model('vrt::require')
def _(m, st, c, v, at, rt):
    b = bn_of(m, st, v[0])
    if (b.n[0] in ('or', 'and') or b.n[0] in ('atom', 'not') and st.ghost.get('@slrel')) and st.decide(b) is None:
        raise Fork([b.n, b_not(b.n)])
    m.obligation(st, text(m, st, v[1]), [b.n], None)
    return UNIT
@model('vrt::unreachable')
def _(m, st, c, v, at, rt):
    unk = bool(st.notes)
    m.add_obl(st, text(m, st, v[0]), 'undecided' if unk else 'fail', 'reached under ' + m.facts_str(st) + m.notes_str(st))
    raise Done('stop')
@model('vrt::same')
def _(m, st, c, v, at, rt):
    ta, tb = m.T[at[0]]['to'], m.T[at[1]]['to']
    r, why = same_ptr(m, st, v[0], ta, v[1], tb)
    judge(m, st, text(m, st, v[2]), r, why)
    return UNIT
@model('vrt::is_same')
def _(m, st, c, v, at, rt):
    ta, tb = m.T[at[0]]['to'], m.T[at[1]]['to']
    r, why = same_ptr(m, st, v[0], ta, v[1], tb)
    if r is True: return TRUE
    if r is False: return FALSE
    return m.fresh('is_same', rt, unk=True)
def judge(m, st, what, r, why):
    if r is True: m.add_obl(st, what, 'ok', why or '')
    elif r is None or st.notes: m.add_obl(st, what, 'undecided', (why or '') + m.notes_str(st))
    else: m.add_obl(st, what, 'fail', '%s given %s' % (why, m.facts_str(st)))
@model('vrt::may_panic')
def _(m, st, c, v, at, rt): st.ghost['may_panic'] = True; return UNIT
@model('vrt::must_not_panic')
def _(m, st, c, v, at, rt): st.ghost.pop('may_panic', None); return UNIT
@model('vrt::ran_out')
def _(m, st, c, v, at, rt): return TRUE if st.ghost.get('ran_out') else FALSE
@model('vrt::reset_drops')
def _(m, st, c, v, at, rt): st.rec['drops'] = (); st.rec['made'] = (); st.rec['clones'] = (); return UNIT

# ---------------------------------------------------------------- equality of values
CELLS = {'core::cell::RefCell': 1, }
def view(m, st, v, ty):
    """canonical observable form: ('seq', Seq) | value"""
    T = m.T
    for _ in range(12):
        if ty is None: return v, ty
        ty = T.peel(ty); t = T[ty]; k = t['k']
        if k in ('ref', 'ptr'):
            if isinstance(v, A):
                v2 = m.val_of(v, ty)
                if not isptr(v2): return v, ty
                v = v2
            if not isptr(v): return v, ty
            to = T.peel(t['to'])
            if T[to]['k'] in ('slice', 'str'): return slice_value(m, st, v), to
            v = m.load(st, v); ty = to; continue
        if k == 'adt':
            p = t['path']
            if p in (BOX, RC, ARC):
                q = deref(m, st, v); to = T.peel(targs(m, ty)[0])
                if T[to]['k'] in ('slice', 'str'): return slice_value(m, st, q), to
                v = m.load(st, q); ty = to; continue
            if p in (VEC, STRING, CSTRING): return slice_value(m, st, vec_slice(m, st, v, p)), None
            if p == LIST: return list_value(m, st, v), None
            if p in (HMAP, HSET): return map_value(m, st, v), None
            if p == 'core::cell::RefCell':
                v = agg(m, st, v).f[-1]; ty = targs(m, ty)[0]; continue
            if p in SINGLE_VIEW:
                v = agg(m, st, v).f[0]; ty = targs(m, ty)[0]; continue
            if p == COW:
                g = agg(m, st, v)
                b = T.peel(targs(m, ty)[0])
                if g.var == 0:
                    q = deref(m, st, g.f[0])
                    if T[b]['k'] in ('slice', 'str'): return slice_value(m, st, q), b
                    v = m.load(st, q); ty = b; continue
                v = g.f[0]; ty = t['vf'][1][0] if t.get('vf') else getattr(v, 'ty', None)
                if ty is None: ty = v.ty if isinstance(v, (A, Agg)) else None
                continue
            if p == 'oct::sized_slice::SizedSlice':
                g = agg(m, st, v); s = g.f[0]
                if isinstance(s, A): s = m.expand(st, s)
                return subseq_strict(m, st, s, g.f[1]), None
            if p == 'oct::sized_str::SizedStr':
                v = agg(m, st, v).f[0]; ty = t['vf'][0][0]; continue
            if p == 'core::ffi::c_str::CStr':
                return v, ty
        return v, ty
    return v, ty
def subseq_strict(m, st, s, n): return Seq(n, s.ety, s.base, s.layers, s.tag)
SINGLE_VIEW = {'core::cell::Cell', 'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'core::sync::atomic::Atomic',
               'core::cell::lazy::LazyCell', 'std::sync::lazy_lock::LazyLock', 'core::num::wrapping::Wrapping', 'core::num::saturating::Saturating'}
def same_ptr(m, st, a, ta, b, tb):
    T = m.T
    def at(p, t):
        t = T.peel(t)
        if T[t]['k'] in ('slice', 'str'): return slice_value(m, st, p), None
        if T[t]['k'] == 'adt' and T[t]['path'] == 'core::ffi::c_str::CStr': return slice_value(m, st, cstr_bytes(m, st, p)), None
        return view(m, st, m.load(st, deref(m, st, p)), t)
    x, tx = at(a, ta); y, ty = at(b, tb)
    return same(m, st, x, y, tx, ty)
def same(m, st, a, b, ta=None, tb=None, d=0):
    """-> (True|False|None, why)"""
    if a is b: return True, None
    if d > 25: return None, 'too deep'
    T = m.T
    ta = ta if ta is not None else (a.ty if isinstance(a, (A, Agg)) else None); tb = tb if tb is not None else (b.ty if isinstance(b, (A, Agg)) else None)
    a, ta = view(m, st, a, ta); b, tb = view(m, st, b, tb)
    ta = ta if ta is not None else (a.ty if isinstance(a, (A, Agg)) else None); tb = tb if tb is not None else (b.ty if isinstance(b, (A, Agg)) else None)
    unk = lambda: has_unk(a) or has_unk(b)
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        if isinstance(a, Uninit) and isinstance(b, Uninit): return True, None
        return (None if (not isinstance(a, Uninit) and has_unk(a)) or (not isinstance(b, Uninit) and has_unk(b)) else False), '%s is not %s' % (show(a), show(b))
    if isinstance(a, (Seq,)) or isinstance(b, (Seq,)):
        if isinstance(a, A): a = m.expand(st, a) or a
        if isinstance(b, A): b = m.expand(st, b) or b
    if isinstance(a, Lin) and isinstance(b, Lin):
        if st.cong(a, b): return True, None
        bs = {x: x for x, _ in (a - b).t if x.key[0] == 'app' and x.key[1] == 'b2i'}
        if bs:
            mp = {x: ONE if decided(m, st, x.key[2]) else ZERO for x in bs}
            return same(m, st, subst(a, mp), subst(b, mp), ta, tb, d + 1)
        return (None if unk() else False), '%s is not %s' % (show(a), show(b))
    if isinstance(a, Bn) and isinstance(b, Bn):
        if a == b: return True, None
        da, db = st.decide(a), st.decide(b)
        if da is None: raise Fork([a.n, b_not(a.n)])
        if db is None: raise Fork([b.n, b_not(b.n)])
        if da == db: return True, None
        return (None if unk() else False), '%s is not %s' % (show(a), show(b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a == b: return True, None
        if not st.ent_eq(a.len, b.len): return (None if has_unk(a.len) or has_unk(b.len) else False), 'length %s is not %s' % (show(a.len), show(b.len))
        c = a.len.const()
        if c is None: c = st.pin(a.len)
        if c is not None and c <= 24:
            for j in range(c):
                r, w = same(m, st, m.seq_read(st, a, Lin(j)), m.seq_read(st, b, Lin(j)), a.ety, b.ety, d + 1)
                if r is not True: return r, 'element %d: %s' % (j, w)
            return True, None
        k = streams.index_atom(m, st, a, b)
        kk = L(k)
        if not (st.add_fact(kk) and st.add_fact(a.len - kk + (-1))): return True, 'empty'
        r, w = same(m, st, m.seq_read(st, a, kk), m.seq_read(st, b, kk), a.ety, b.ety, d + 1)
        return r, None if r is True else 'element %s: %s' % (show(kk), w)
    if isinstance(a, A) and isinstance(b, A):
        if st.cong(a, b): return True, None
        if st.batoms.get(app('same', a, b)) or st.batoms.get(app('same', b, a)): return True, None
    if isinstance(a, A):
        e = m.expand(st, a)
        if e is None and not (isinstance(b, A) and m.expand(st, b) is None and not is_enum(m, b.ty)): e = m.split_variants(st, a)
        if e is None and is_enum(m, a.ty): e = m.split_variants(st, a)
        if e is not None: return same(m, st, e, b, ta, tb, d + 1)
    if isinstance(b, A):
        e = m.expand(st, b)
        if e is None: e = m.split_variants(st, b)
        if e is not None: return same(m, st, a, e, ta, tb, d + 1)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.path != b.path and not (a.path == '?' or b.path == '?'): return (None if unk() else False), '%s is not %s' % (show(a), show(b))
        if a.var is not None and b.var is not None and a.var != b.var: return (None if unk() else False), '%s is not %s' % (show(a), show(b))
        vf = None
        if a.ty is not None and T[a.ty].get('vf'):
            vs = T[a.ty]['vf']; vi = a.var or 0
            if vi < len(vs): vf = vs[vi]
        for i in range(max(len(a.f), len(b.f))):
            x = a.f[i] if i < len(a.f) else UNINIT; y = b.f[i] if i < len(b.f) else UNINIT
            fty = vf[i] if vf and i < len(vf) else None
            if fty is not None and m.zst(fty): continue
            r, w = same(m, st, x, y, fty, fty, d + 1)
            if r is not True: return r, 'field %d: %s' % (i, w)
        return True, None
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b: return True, None
        return None, 'pointers %s and %s' % (show(a), show(b))
    if a == b: return True, None
    return (None if unk() or type(a) != type(b) else False), '%s is not %s' % (show(a), show(b))
def is_enum(m, ty):
    t = m.T[ty] if ty is not None else None
    return bool(t and t['k'] == 'adt' and m.T.adts.get(t['path'], {}).get('kind') == 'enum')

# ---------------------------------------------------------------- vectors and strings:  Vec = (heap pointer, len)
def vec_new(m, st, ety, seq, n, path=VEC, ty=None):
    c = m.new_cell(st, seq)
    v = Agg(VEC, None, (Ptr(c, (('idx', ZERO),)), n), ty if path == VEC else None)
    if path == VEC: return v
    return Agg(path, None, (v,), ty)
def vec_parts(m, st, v, path=None):
    """-> (heap cell, proj, len)"""
    g = v
    for _ in range(3):
        g = agg(m, st, g)
        if g.path == VEC: break
        g = g.f[0]
    p = g.f[0]
    return p.cell, p.proj[:-1], g.f[1]
def vec_slice(m, st, v, path=None):
    cell, proj, n = vec_parts(m, st, v, path)
    return mkslice(cell, proj, ZERO, n)
def virt_vec(m, st, a, t):
    ety = targs(m, a.ty)[0]
    n = L(app('len', a, ty=m.T.prim('usize'), lo=0, hi=U63))
    c = ('vec', a)
    if c not in st.mem: st.mem[c] = Seq(n, ety, ('sym', a))
    return Agg(VEC, None, (Ptr(c, (('idx', ZERO),)), n), a.ty)
def virt_string(m, st, a, t):
    n = L(app('len', a, ty=m.T.prim('usize'), lo=0, hi=U63))
    c = ('vec', a)
    if c not in st.mem: st.mem[c] = Seq(n, m.T.prim('u8'), ('sym', a), (), 'utf8' if t['path'] == STRING else 'nonul')
    if t['path'] == CSTRING: mark_nonul(a)
    else: UTF8[a] = n
    return Agg(t['path'], None, (Agg(VEC, None, (Ptr(c, (('idx', ZERO),)), n)),), a.ty)
def mark_nonul(a): NONUL.add(a)

def list_value(m, st, v):
    g = agg(m, st, v); p, lo, hi = g.f
    return subseq(m, st, seq_of(m, st, p.cell, p.proj[:-1]), lo, hi - lo)
def virt_list(m, st, a, t):
    ety = targs(m, a.ty)[0]
    n = L(app('len', a, ty=m.T.prim('usize'), lo=0, hi=U63)); c = ('list', a)
    if c not in st.mem: st.mem[c] = Seq(n, ety, ('sym', a))
    return Agg(LIST, None, (Ptr(c, (('idx', ZERO),)), ZERO, n), a.ty)
def from_input(k): return isinstance(k, A) and k.key[:2] == ('app', 'decoded')
def map_value(m, st, v):
    g = agg(m, st, v); p, n = g.f
    # a key was there already, and may have been left out of the log
    if any(x.key[:2] == ('app', 'contains') and b and x.key[2] == p.cell or x.key[:2] == ('app', 'inserted') and not b and x.key[2] == p.cell for x, b in st.batoms.items()):
        return Seq(L(m.fresh('len', m.T.prim('usize'), unk=True)), pair_ty(m, g.ty), ('uninit',))
    return subseq(m, st, seq_of(m, st, p.cell, p.proj[:-1]), ZERO, n)
def pair_ty(m, ty):
    a = targs(m, ty)
    if m.T[ty]['path'] == HSET: return a[0]
    s = '(%s, %s)' % (m.T.s(a[0]), m.T.s(a[1]))
    return m.T.add({'k': 'tuple', 'args': [a[0], a[1]], 's': s, 'nd': True})
def virt_map(m, st, a, t):
    n = L(app('len', a, ty=m.T.prim('usize'), lo=0, hi=U63)); c = ('map', a)
    if c not in st.mem: st.mem[c] = Seq(n, pair_ty(m, a.ty), ('sym', a))
    return Agg(t['path'], None, (Ptr(c, (('idx', ZERO),)), n), a.ty)
def virt_single(m, st, a, t):
    return Agg(t['path'], None, (m.mkv('fld', a, 0, ty=targs(m, a.ty)[0]),), a.ty)
def virt_ptr(m, st, a, t):
    """Rc / Arc: one pointer to the shared value"""
    to = targs(m, a.ty)[0]; T = m.T
    if T[T.peel(to)]['k'] in ('slice', 'str'):
        n = L(app('len', a, ty=T.prim('usize'), lo=0, hi=U63))
        return Agg(t['path'], None, (Ptr(('deref', a, T.peel(to)), (('idx', ZERO),), n),), a.ty)
    return Agg(t['path'], None, (Ptr(('deref', a, to), (), None),), a.ty)
def virt_box(m, st, a, t):
    g = virt_ptr(m, st, a, t)
    return Agg(BOX, None, (Agg('core::ptr::unique::Unique', None, (Agg('core::ptr::non_null::NonNull', None, (g.f[0],)), UNIT)), UNIT), a.ty)
def virt_duration(m, st, a, t):
    return Agg(DUR, None, (L(app('secs', a, ty=m.T.prim('u64'), lo=0, hi=(1 << 64) - 1)), L(app('nanos', a, ty=m.T.prim('u32'), lo=0, hi=999999999))), a.ty)
def virt_bits(n):
    def f(m, st, a, t): return Agg(t['path'], None, (L(app('bits', a, ty=m.T.prim('u%d' % n), lo=0, hi=(1 << n) - 1)),), a.ty)
    return f
def virt_nonzero(m, st, a, t):
    ty = targs(m, a.ty)[0]; x = m.mkv('nz', a, ty=ty)
    if not st.assume(('ne', x) if isinstance(x, Lin) else ('t',)): raise Done('unreach')
    return Agg(t['path'], None, (x,), a.ty)
def virt_sock(*fs):
    def f(m, st, a, t):
        out = []
        for i, (p, n) in enumerate(fs):
            if p == 'ip4': out.append(Agg('core::net::ip_addr::Ipv4Addr', None, (L(app('fld', a, i, lo=0, hi=(1 << 32) - 1)),)))
            elif p == 'ip6': out.append(Agg('core::net::ip_addr::Ipv6Addr', None, (L(app('fld', a, i, lo=0, hi=(1 << 128) - 1)),)))
            else: out.append(L(app('fld', a, i, ty=m.T.prim('u%d' % n), lo=0, hi=(1 << n) - 1)))
        return Agg(t['path'], None, out, a.ty)
    return f
def virt_systime(m, st, a, t):
    return Agg(t['path'], None, (L(app('secs', a, ty=m.T.prim('i64'), lo=-(1 << 63), hi=(1 << 63) - 1)), L(app('nanos', a, lo=0, hi=999999999))), a.ty)

def inv_sized_slice(m, st, a, g, t):
    n = m.T.const(m.T[t['vf'][0][0]]['len']); ln = g.f[1]
    if not st.add_fact(n - ln): raise Done('unreach')
    e = targs(m, a.ty); e = e[0] if e else None
    if e is not None and m.T[m.T.peel(e)]['k'] in ('int', 'char', 'bool', 'float') and not st.add_fact(-ln + U63): raise Done('unreach')
    s = Seq(n, targs(m, a.ty)[0], ('prefix', a, ln))
    return Agg(g.path, None, (s, ln), a.ty)
def inv_sized_iter(m, st, a, g, t):
    i = field_index(m, 'oct::sized_iter::SizedIter', 'pos'), field_index(m, 'oct::sized_iter::SizedIter', 'len'), field_index(m, 'oct::sized_iter::SizedIter', 'buf')
    n = m.T.const(m.T[t['vf'][0][i[2]]]['len'])
    pos, ln = g.f[i[0]], g.f[i[1]]
    if not (st.add_fact(n - pos - ln)): raise Done('unreach')
    s = Seq(n, targs(m, a.ty)[0], ('window', a, pos, pos + ln))
    return g.with_f(i[2], s)
def field_index(m, path, name):
    for i, f in enumerate(m.T.adts[path]['variants'][0]['fields']):
        if f['name'] == name: return i
    raise Unsupported('no field %s in %s' % (name, path))
def inv_stream(m, st, a, g, t):
    b = field_index(m, t['path'], 'buf'); p = field_index(m, t['path'], 'pos')
    v = g.f[b]
    if isptr(v) and not st.add_fact(v.meta - g.f[p]): raise Done('unreach')
    return g
def inv_sized_str(m, st, a, g, t):
    # the bytes in use are valid UTF-8
    inner = g.f[0]
    e = m.expand(st, inner) if isinstance(inner, A) else inner
    s = e.f[0]
    if s.base[0] == 'prefix': UTF8[s.base[1]] = s.base[2]
    return Agg(g.path, None, (Agg(e.path, None, (s,) + e.f[1:], e.ty),) + g.f[1:], a.ty)
def inv_slot(m, st, a, g, t):
    i = field_index(m, t['path'], 'len')
    j = field_index(m, t['path'], 'buf')
    v = g.f[j]; n = None
    bt = t['vf'][0][j]
    p = m.unwrap_ptr(st, v)
    if isptr(p) and p.meta is not None: n = p.meta
    if not st.add_fact(n - g.f[i]): raise Done('unreach')
    return g

def owned_ty(m, b):
    T = m.T; t = T[T.peel(b)]
    if t['k'] == 'str': return T.add({'k': 'adt', 'path': STRING, 'args': [], 'vf': None, 's': 'std::string::String', 'nd': True})
    if t['k'] == 'slice': return T.add({'k': 'adt', 'path': VEC, 'args': [{'t': t['elem']}], 'vf': None, 's': 'std::vec::Vec<%s>' % T.s(t['elem']), 'nd': True})
    return b
def ref_ty(m, b): return m.T.add({'k': 'ref', 'mut': False, 'to': b, 's': '&' + m.T.s(b), 'nd': False})
def cow_fields(m, a, vi):
    b = targs(m, a.ty)[0]
    return [ref_ty(m, b)] if vi == 0 else [owned_ty(m, b)]
def install(m):
    m.vfields[COW] = cow_fields
    V = m.virt
    V[VEC] = virt_vec; V[STRING] = virt_string; V[CSTRING] = virt_string; V[LIST] = virt_list; V[HMAP] = virt_map; V[HSET] = virt_map
    for p in SINGLE_VIEW - {'core::cell::Cell', 'core::num::wrapping::Wrapping', 'core::num::saturating::Saturating'}: V[p] = virt_single
    V[RC] = virt_ptr; V[ARC] = virt_ptr; V[BOX] = virt_box; V[DUR] = virt_duration
    V['core::net::ip_addr::Ipv4Addr'] = virt_bits(32); V['core::net::ip_addr::Ipv6Addr'] = virt_bits(128)
    V['core::num::nonzero::NonZero'] = virt_nonzero
    V['core::net::socket_addr::SocketAddrV4'] = virt_sock(('ip4', 0), ('p', 16))
    V['core::net::socket_addr::SocketAddrV6'] = virt_sock(('ip6', 0), ('p', 16), ('f', 32), ('s', 32))
    V['std::time::SystemTime'] = virt_systime
    m.struct_inv['oct::sized_slice::SizedSlice'] = inv_sized_slice
    m.struct_inv['oct::sized_iter::SizedIter'] = inv_sized_iter
    m.struct_inv['oct::encode::output::Output'] = inv_stream
    m.struct_inv['oct::decode::input::Input'] = inv_stream
    m.struct_inv['oct::sized_str::SizedStr'] = inv_sized_str
    m.struct_inv['oct::slot::Slot'] = inv_slot

@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def _(m, st, c, v, at, rt):
    if v: allocated(m, st, v[0])
    ety = targs(m, rt)[0]
    if v:
        cap = fresh('cap', m.T.prim('usize'), 0, U63); st.add_fact(L(cap) - v[0]); n = L(cap)
    else: n = ZERO
    return vec_new(m, st, ety, Seq(n, ety, ('uninit',)), ZERO, VEC, rt)
@model('alloc::vec::from_elem')
def _(m, st, c, v, at, rt):
    allocated(m, st, v[1])
    ety = targs(m, rt)[0]
    return vec_new(m, st, ety, Seq(v[1], ety, ('rep', v[0])), v[1], VEC, rt)
@model('alloc::vec::Vec::into_boxed_slice')
def _(m, st, c, v, at, rt):
    cell, proj, n = vec_parts(m, st, v[0])
    return box_of(m, mkslice(cell, proj, ZERO, n), rt)
@model('alloc::str::from_boxed_utf8_unchecked')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); cell, proj, lo, n = slice_parts(m, st, p); s = seq_of(m, st, cell, proj)
    check_utf8(m, st, s, lo, n)
    return box_of(m, mkslice(cell, proj, lo, n), rt)
@model('prim::str::into_string')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); cell, proj, lo, n = slice_parts(m, st, p)
    if lo != ZERO: raise Unsupported('into_string')
    return Agg(STRING, None, (Agg(VEC, None, (Ptr(cell, proj + (('idx', ZERO),)), n)),), rt)
@model('core::array::SpecArrayClone::clone')
def _(m, st, c, v, at, rt):
    x = slice_value(m, st, v[0]); st.emit('clones', ('ds', x, ZERO, x.len, m.T.s(x.ety)))
    return x
@model('alloc::string::String::new', 'alloc::string::String::with_capacity')
def _(m, st, c, v, at, rt):
    if v: allocated(m, st, v[0])
    ety = m.T.prim('u8')
    if v:
        cap = fresh('cap', m.T.prim('usize'), 0, U63); st.add_fact(L(cap) - v[0]); n = L(cap)
    else: n = ZERO
    return vec_new(m, st, ety, Seq(n, ety, ('uninit',), (), 'utf8'), ZERO, STRING, rt)
def at_self(m, st, p, path):
    """pointer to a Vec-like -> (pointer, aggregate)"""
    p = deref_once(m, st, p)
    v = m.load(st, p)
    if isinstance(v, A): v = agg(m, st, v)
    return p, v
def deref_once(m, st, p):
    if isinstance(p, A) and p.ty is not None: p = m.val_of(p, p.ty)
    if not isptr(p): raise Unsupported('pointer ' + show(p))
    return p
@model('alloc::vec::Vec::push')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    p, g = at_self(m, st, v[0], VEC)
    cell, proj, n = vec_parts(m, st, g)
    s = seq_of(m, st, cell, proj)
    if not st.ent(s.len - n + (-1)):
        cap = fresh('cap', m.T.prim('usize'), 0, U63)
        if not st.add_fact(L(cap) - n + (-1)): raise Done('unreach')
        s = s.with_len(L(cap))
    s2 = m.proj_write(st, s, (('idx', n),), v[1])
    st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, s2)
    m.store(st, p, Agg(VEC, None, (g.f[0], n + 1), g.ty))
    return UNIT
def vec_replace(m, st, p, g, n, parts):
    """the elements of a vector become those of the parts [(sequence, from, how many) | value]"""
    ety = next(x[0].ety for x in parts if isinstance(x, tuple)); at = ZERO; s2 = Seq(n, ety, ('uninit',))
    for x in parts:
        if isinstance(x, tuple):
            s, lo, k = x
            if not st.ent_eq(k, ZERO): s2 = Seq(n, ety, s2.base, s2.layers + ((at, at + k, 'copy', (s, lo)),))
            at = at + k
        else:
            s2 = m.proj_write(st, s2, (('idx', at),), x); at = at + 1
    m.store(st, p, Agg(VEC, None, (Ptr(m.new_cell(st, s2), (('idx', ZERO),)), n), g.ty))
def vec_seq(m, st, g):
    cell, proj, n = vec_parts(m, st, g); return subseq(m, st, seq_of(m, st, cell, proj), ZERO, n), n
@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::shrink_to', 'alloc::string::String::reserve', 'alloc::string::String::reserve_exact', 'alloc::string::String::shrink_to_fit')
def _(m, st, c, v, at, rt):
    if 'reserve' in c.get('rpath', c['path']): allocated(m, st, v[1])
    return UNIT
@model('alloc::vec::Vec::insert')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    p, g = at_self(m, st, v[0], VEC); s, n = vec_seq(m, st, g); i = v[1]
    if not decided(m, st, ge0(n - i)): panic(st, 'insertion index out of bounds')
    vec_replace(m, st, p, g, n + 1, [(s, ZERO, i), v[2], (s, i, n - i)]); return UNIT
@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); s, n = vec_seq(m, st, g); i = v[1]
    if not decided(m, st, ge0(n - i + (-1))): panic(st, 'removal index out of bounds')
    x = m.seq_read(st, s, i)
    if c['name'] == 'remove' or decided(m, st, eq0(n - i + (-1))): vec_replace(m, st, p, g, n + (-1), [(s, ZERO, i), (s, i + 1, n - i + (-1))])
    else: vec_replace(m, st, p, g, n + (-1), [(s, ZERO, i), m.seq_read(st, s, n + (-1)), (s, i + 1, n - i + (-2))])
    return x
@model('alloc::vec::Vec::append')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); q, h = at_self(m, st, v[1], VEC); s, n = vec_seq(m, st, g); t, k = vec_seq(m, st, h)
    allocated(m, st, k); vec_replace(m, st, p, g, n + k, [(s, ZERO, n), (t, ZERO, k)])
    m.store(st, q, Agg(VEC, None, (h.f[0], ZERO), h.ty)); return UNIT
@model('alloc::vec::Vec::split_off')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); s, n = vec_seq(m, st, g); i = v[1]
    if not decided(m, st, ge0(n - i)): panic(st, 'split index out of bounds')
    allocated(m, st, n - i)
    m.store(st, p, Agg(VEC, None, (g.f[0], i), g.ty))
    return Agg(VEC, None, (Ptr(m.new_cell(st, subseq(m, st, s, i, n - i)), (('idx', ZERO),)), n - i), rt)
@model('alloc::string::String::as_mut_vec')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], STRING); return Ptr(p.cell, p.proj + (('f', 0),), None, rt)
@model('core::char::convert::char_try_from_u32')
def _(m, st, c, v, at, rt):
    x = v[0]; good = decided(m, st, ge0(-x + 0x10FFFF)) and (decided(m, st, ge0(-x + 0xD7FF)) or decided(m, st, ge0(x + (-0xE000))))
    return ok(m, rt, x) if good else err(m, rt, Agg('core::char::convert::CharTryFromError', None, (UNIT,), targs(m, rt)[1]))
@model('core::intrinsics::raw_eq')
def _(m, st, c, v, at, rt):
    a, b = m.load(st, deref(m, st, v[0])), m.load(st, deref(m, st, v[1]))
    if isinstance(a, A): a = m.expand(st, a)
    if isinstance(b, A): b = m.expand(st, b)
    if isinstance(a, Seq) and isinstance(b, Seq): return slices_equal(m, st, a, b)
    if isinstance(a, Lin) and isinstance(b, Lin): return Bn(eq0(a - b))
    return m.fresh('r:raw_eq', rt, unk=True)
@model('alloc::vec::Vec::set_len')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC)
    cell, proj, n = vec_parts(m, st, g)
    s = seq_of(m, st, cell, proj)
    m.obligation(st, 'a vector is not made longer than its allocation', [ge0(s.len - v[1])])
    m.check_init(st, s, ZERO, v[1], 'all elements of a vector are initialised')
    m.store(st, p, Agg(VEC, None, (g.f[0], v[1]), g.ty))
    return UNIT
@model('alloc::vec::Vec::as_mut_ptr', 'alloc::vec::Vec::as_ptr')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC)
    cell, proj, n = vec_parts(m, st, g)
    return Ptr(cell, proj + (('idx', ZERO),), None, rt)
@model('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_mut_str', 'alloc::string::String::as_bytes',
       'alloc::ffi::c_str::CString::as_bytes', 'alloc::ffi::c_str::CString::to_bytes')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC)
    cell, proj, n = vec_parts(m, st, g)
    return mkslice(cell, proj, ZERO, n, rt)
@model('alloc::ffi::c_str::CString::as_c_str')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], CSTRING)
    cell, proj, n = vec_parts(m, st, g)
    return mkslice(cell, proj, ZERO, n, rt)
def cstr_bytes(m, st, p):
    """pointer to CStr -> slice pointer without the terminator"""
    p = deref_once(m, st, p)
    if p.meta is not None: return p
    if isinstance(p.cell, tuple) and p.cell[0] == 'deref':
        a = p.cell[1]; n = L(app('len', a, ty=m.T.prim('usize'), lo=0, hi=U63)); c = ('cstr', a)
        if c not in st.mem: st.mem[c] = Seq(n, m.T.prim('u8'), ('sym', app('*', a)), (), 'nonul'); mark_nonul(app('*', a))
        return mkslice(c, (), ZERO, n)
    raise Unsupported('CStr ' + show(p))
@model('core::ffi::c_str::CStr::to_bytes')
def _(m, st, c, v, at, rt):
    p = cstr_bytes(m, st, v[0]); return Ptr(p.cell, p.proj, p.meta, rt)
@model('core::ffi::c_str::CStr::count_bytes')
def _(m, st, c, v, at, rt): return cstr_bytes(m, st, v[0]).meta
@model('alloc::vec::Vec::len', 'alloc::string::String::len')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); return vec_parts(m, st, g)[2]
@model('alloc::vec::Vec::capacity', 'alloc::string::String::capacity')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); cell, proj, n = vec_parts(m, st, g)
    return seq_of(m, st, cell, proj).len
@model('alloc::string::String::from_utf8_unchecked')
def _(m, st, c, v, at, rt):
    cell, proj, n = vec_parts(m, st, v[0]); s = seq_of(m, st, cell, proj)
    check_utf8(m, st, s, ZERO, n)
    st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, Seq(s.len, s.ety, s.base, s.layers, 'utf8'))
    return Agg(STRING, None, (agg(m, st, v[0]),), rt)
@model('alloc::string::String::from_utf8')
def _(m, st, c, v, at, rt):
    cell, proj, n = vec_parts(m, st, v[0]); s = seq_of(m, st, cell, proj)
    key = utf8_key(m, st, s, ZERO, n); a = app('is_utf8', *key)
    if utf8_ok(m, st, s, ZERO, n) or decided(m, st, Bn(('atom', a))):
        know_utf8(m, st, s, ZERO, n)
        st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, Seq(s.len, s.ety, s.base, s.layers, 'utf8'))
        return ok(m, rt, Agg(STRING, None, (agg(m, st, v[0]),), targs(m, rt)[0]))
    i = app('valid_up_to', *key, ty=m.T.prim('usize'), lo=0, hi=U63)
    if not st.add_fact(n - L(i) + (-1)): raise Done('unreach')
    e = Agg('core::str::error::Utf8Error', None, (L(i), UNIT, n), m.T.find('core::str::error::Utf8Error') or m.T.find('std::str::Utf8Error'))
    return err(m, rt, Agg('alloc::string::FromUtf8Error', None, (agg(m, st, v[0]), e), targs(m, rt)[1]))
@model('alloc::string::FromUtf8Error::utf8_error')
def _(m, st, c, v, at, rt): return agg(m, st, loadv(m, st, v[0])).f[1]
@model('alloc::string::FromUtf8Error::into_bytes')
def _(m, st, c, v, at, rt): return agg(m, st, v[0]).f[0]
@model('alloc::string::String::into_bytes')
def _(m, st, c, v, at, rt): return agg(m, st, v[0]).f[0]
@model('alloc::ffi::c_str::CString::from_vec_unchecked', 'alloc::ffi::c_str::CString::_from_vec_unchecked')
def _(m, st, c, v, at, rt):
    cell, proj, n = vec_parts(m, st, v[0]); s = seq_of(m, st, cell, proj)
    c_ = n.const() if n.const() is not None else st.pin(n)
    if c_ is not None and c_ <= 8:
        for j in range(c_):
            b = m.seq_read(st, s, Lin(j)); d = nonzero_byte(m, st, b, s, Lin(j))
            m.add_obl(st, 'a C string contains no inner NUL byte', 'ok' if d is True else ('fail' if d is False and not st.notes else 'undecided'), 'byte %d of %s given %s' % (j, show(s), m.facts_str(st)))
        return Agg(CSTRING, None, (agg(m, st, v[0]),), rt)
    k = L(fresh('i', m.T.prim('usize'), 0, U63)); st2 = st.clone()
    if st2.add_fact(n - k + (-1)):
        b = m.seq_read(st2, s, k)
        d = nonzero_byte(m, st2, b, s, k)
        m.add_obl(st, 'a C string contains no inner NUL byte', 'ok' if d is True else ('fail' if d is False and not st.notes else 'undecided'), 'byte %s of %s given %s' % (show(k), show(s), m.facts_str(st2)))
    return Agg(CSTRING, None, (agg(m, st, v[0]),), rt)
def nonzero_byte(m, st, b, s, k):
    if not isinstance(b, Lin): return None
    if st.decide(eq0(b)) is False: return True
    at = b.atom()
    if at is not None and at.key[0] == 'app' and at.key[1] == 'elem':
        src = at.key[2]
        if src in NONUL: return True
        # a universally quantified fact established by a scanning loop:  forall j in [lo,hi): src[j] != 0
        for q in st.ghost.get('@forall', ()):
            if q[0] == src and st.ent(at.key[3] - q[1]) and st.ent(q[2] - at.key[3] + (-1)): return True
        return None if has_unk(b) else False
    return None if has_unk(b) else False

# utf8 provenance
def content(m, st, s, lo, n, d=0):
    """where the elements s[lo..lo+n] come from: ('o', X, off) elements elem(X, off..), or ('v', values, None)"""
    if d > 12: return None
    for l0, h0, k, p in reversed(s.layers):
        if st.ent(l0 - h0): continue
        if st.ent(lo - l0) and st.ent(h0 - lo - n):
            if k == 'copy': return content(m, st, p[0], lo - l0 + p[1], n, d + 1)
            break
        if st.ent(l0 - lo - n) or st.ent(lo - h0): continue
        break
    else:
        b = s.base
        if b[0] == 'sym': return ('o', b[1], lo)
        if b[0] == 'prefix' and st.ent(b[2] - lo - n): return ('o', b[1], lo)
        if b[0] == 'window' and st.ent(lo - b[2]) and st.ent(b[3] - lo - n): return ('o', b[1], lo)
        if b[0] == 'gen':
            e = b[2]; at = e.atom() if isinstance(e, Lin) else None
            if at is not None and at.key[1] == 'elem' and isinstance(at.key[3], Lin):
                off = at.key[3] - L(b[1])
                if b[1] not in atoms_of(off) and b[1] not in atoms_of(at.key[2]): return ('o', at.key[2], off + lo)
            return None
    c = st.pin(n)
    if c is None: return None
    vals = []
    for j in range(c):
        try: vals.append(m.seq_read(st, s, lo + j))
        except Fork: return None
    first = vals[0].atom() if vals and isinstance(vals[0], Lin) else vals[0] if vals and isinstance(vals[0], A) else None
    if first is not None and first.key[0] == 'app' and first.key[1] == 'elem' and isinstance(first.key[3], Lin):
        X, off = first.key[2], first.key[3]
        for j, x in enumerate(vals):
            a = x.atom() if isinstance(x, Lin) else x
            if not (isinstance(a, A) and a.key[0] == 'app' and a.key[1] == 'elem' and a.key[2] is X and st.ent_eq(a.key[3], off + j)): break
        else: return ('o', X, off)
    return ('v', tuple(vals), ZERO)
def same_content(st, q, c):
    if q[0] != c[0]: return False
    if q[0] == 'o': return q[1] is c[1] and st.ent_eq(q[2], c[2])
    return q[1] == c[1]
def utf8_key(m, st, s, lo, n):
    """the arguments naming the bytes s[lo..lo+n]: the same for a copy as for the original"""
    c = content(m, st, s, lo, n); k = (c[1], c[2], n) if c is not None and c[0] == 'o' else (s, lo, n)
    for q in st.ghost.get('@utf8key', ()):
        if q[0] is k[0] and st.ent_eq(q[1], k[1]) and st.ent_eq(q[2], k[2]): return q
    st.ghost['@utf8key'] = st.ghost.get('@utf8key', ()) + (k,)
    return k
def know_utf8(m, st, s, lo, n):
    c = content(m, st, s, lo, n)
    if c is not None: st.ghost['@utf8'] = st.ghost.get('@utf8', ()) + ((c[0], c[1], c[2], n),)
def utf8_ok(m, st, s, lo, n):
    """True if s[lo..lo+n] is known to be valid UTF-8; None if unknown provenance; False if arbitrary bytes"""
    if st.ent_eq(n, ZERO): return True
    c = content(m, st, s, lo, n)
    if c is not None:
        if c[0] == 'o' and c[1] in UTF8 and st.ent_eq(c[2], ZERO) and st.ent_eq(n, UTF8[c[1]]): return True
        for q in st.ghost.get('@utf8', ()):
            if same_content(st, q, c) and st.ent_eq(q[3], n): return True
    ls = s.layers
    if ls:
        l0, h0, k, p = ls[-1]
        if k == 'copy' and st.ent_eq(l0, lo) and st.ent_eq(h0, lo + n): return utf8_ok(m, st, p[0], p[1], n)
        if k == 'copy' and st.ent(lo - l0) and st.ent(h0 - lo - n): return utf8_ok(m, st, p[0], lo - l0 + p[1], n)
        if k == 'utf8': return True
        # concatenation of valid pieces
        if k == 'copy' and st.ent_eq(h0, lo + n) and st.ent(l0 - lo):
            a = utf8_ok(m, st, p[0], p[1], h0 - l0); b = utf8_ok(m, st, Seq(s.len, s.ety, s.base, ls[:-1], s.tag), lo, l0 - lo)
            return a and b if (a is not None and b is not None) else None
    if s.base[0] == 'vals' and not ls:
        lc, nc = lo.const(), n.const()
        if lc is not None and nc is not None:
            bs = s.base[1][lc:lc + nc]
            if all(isinstance(x, Lin) and x.const() is not None for x in bs):
                try: bytes(x.c for x in bs).decode('utf8'); return True
                except UnicodeDecodeError: return False
            if all(isinstance(x, Lin) and st.ent(-x + 127) and st.ent(x) for x in bs): return True
    if has_unk(s): return None
    if c is not None and c[0] == 'o': return None if c[1] in UTF8 else False
    if c is not None and c[0] == 'v': return False
    return None
def check_utf8(m, st, s, lo, n, what='only valid UTF-8 becomes a string'):
    r = utf8_ok(m, st, s, lo, n)
    if r is False and st.notes: r = None
    m.add_obl(st, what, 'ok' if r else ('fail' if r is False else 'undecided'), 'bytes [%s, +%s) of %s' % (show(lo), show(n), show(s)))

# ---------------------------------------------------------------- slices
@model('prim::slice::len', 'prim::str::len')
def _(m, st, c, v, at, rt): return slice_parts(m, st, v[0])[3]
@model('prim::slice::is_empty', 'prim::str::is_empty')
def _(m, st, c, v, at, rt): return Bn(eq0(slice_parts(m, st, v[0])[3]))
@model('prim::slice::as_ptr', 'prim::slice::as_mut_ptr', 'prim::str::as_ptr', 'prim::str::as_mut_ptr')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    return Ptr(cell, proj + (('idx', lo),), None, rt)
@model('prim::array::as_slice', 'prim::array::as_mut_slice')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    return mkslice(cell, proj, lo, n, rt)
@model('prim::str::as_bytes', 'prim::str::as_bytes_mut')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    return mkslice(cell, proj, lo, n, rt)
@model('prim::const_ptr::add', 'prim::mut_ptr::add', 'core::ptr::non_null::NonNull::add')
def _(m, st, c, v, at, rt):
    q = m.ptr_add(st, v[0], v[1]); r = Ptr(q.cell, q.proj, None, rt)
    return r if m.T[rt]['k'] == 'ptr' else Agg('core::ptr::non_null::NonNull', None, (r,), rt)
@model('prim::const_ptr::sub', 'prim::mut_ptr::sub')
def _(m, st, c, v, at, rt):
    q = m.ptr_add(st, v[0], -v[1]); return Ptr(q.cell, q.proj, None, rt)
@model('prim::const_ptr::offset', 'prim::mut_ptr::offset', 'prim::const_ptr::wrapping_add', 'prim::mut_ptr::wrapping_add')
def _(m, st, c, v, at, rt):
    q = m.ptr_add(st, v[0], v[1]); return Ptr(q.cell, q.proj, None, rt)
@model('prim::const_ptr::cast', 'prim::mut_ptr::cast', 'prim::const_ptr::cast_mut', 'prim::mut_ptr::cast_const', 'core::ptr::non_null::NonNull::cast')
def _(m, st, c, v, at, rt):
    if m.T[rt]['k'] == 'adt':
        f, t = targs(m, at[0])[0], targs(m, rt)[0]
        return Agg('core::ptr::non_null::NonNull', None, (m.ptr_cast(st, v[0], f, t, None),), rt)
    p = m.unwrap_ptr(st, v[0])
    return m.ptr_cast(st, v[0], m.T[at[0]]['to'], m.T[rt]['to'], rt)
@model('prim::const_ptr::is_null', 'prim::mut_ptr::is_null')
def _(m, st, c, v, at, rt):
    p = m.unwrap_ptr(st, v[0])
    if isptr(p): return FALSE
    return Bn(('atom', app('isnull', p)))
@model('prim::const_ptr::is_aligned_to', 'prim::const_ptr::is_aligned')
def _(m, st, c, v, at, rt): return TRUE
def read_obl(m, st, p, what='reads initialised memory inside its object'):
    cell, proj, i = m.elem_ptr(st, p)
    if i is not None:
        s = seq_of(m, st, cell, proj)
        m.obligation(st, 'access stays inside its object', [ge0(i), ge0(s.len - i + (-1))])
@model('core::ptr::read', 'prim::const_ptr::read', 'prim::mut_ptr::read', 'prim::const_ptr::read_unaligned', 'core::ptr::read_unaligned', 'core::ptr::non_null::NonNull::read')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0])
    if p.proj and p.proj[-1][0] == 'idx': read_obl(m, st, p)
    x = m.load(st, p)
    t = m.T[m.T.peel(rt)]
    if isinstance(x, Uninit) and m.T[rt].get('path') not in PEEL and not m.zst(rt):
        m.add_obl(st, 'only initialised memory is read', 'fail' if not st.notes else 'undecided', 'read of uninitialised %s' % show(p))
    return x
@model('core::ptr::write', 'prim::mut_ptr::write', 'core::ptr::non_null::NonNull::write')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0])
    if p.proj and p.proj[-1][0] == 'idx': read_obl(m, st, p)
    m.store(st, p, v[1]); return UNIT
@model('core::ptr::copy_nonoverlapping', 'core::ptr::copy', 'core::intrinsics::copy_nonoverlapping', 'core::intrinsics::copy')
def _(m, st, c, v, at, rt):
    m.copy(st, v[0], v[1], v[2]); return UNIT
@model('prim::const_ptr::copy_to_nonoverlapping', 'prim::mut_ptr::copy_to_nonoverlapping', 'prim::const_ptr::copy_to', 'prim::mut_ptr::copy_to')
def _(m, st, c, v, at, rt):
    m.copy(st, v[0], v[1], v[2]); return UNIT
@model('prim::mut_ptr::copy_from_nonoverlapping', 'prim::mut_ptr::copy_from')
def _(m, st, c, v, at, rt):
    m.copy(st, v[1], v[0], v[2]); return UNIT
@model('prim::slice::copy_from_slice', 'prim::slice::clone_from_slice')
def _(m, st, c, v, at, rt):
    a = slice_parts(m, st, v[0]); b = slice_parts(m, st, v[1])
    if not decided(m, st, eq0(a[3] - b[3])): panic(st, 'copy_from_slice length mismatch')
    m.copy(st, v[1], v[0], b[3]); return UNIT
@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut')
def _(m, st, c, v, at, rt):
    cell, proj, i = m.elem_ptr(st, v[0])
    if i is None:
        if v[1].const() == 1: raise Unsupported('slice of one')
        raise Unsupported('slice from ' + show(v[0]))
    s = seq_of(m, st, cell, proj)
    m.obligation(st, 'a slice stays inside its object', [ge0(i), ge0(s.len - i - v[1])])
    ety = m.T[m.T[rt]['to']].get('elem')
    if ety is None or m.T[ety].get('path') not in PEEL: m.check_init(st, s, i, i + v[1], 'every element of a slice is initialised')
    return mkslice(cell, proj, i, v[1], rt)
@model('core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0])
    if not (p.proj and p.proj[-1][0] == 'idx'): raise Unsupported('slice from ' + show(p))
    return Ptr(p.cell, p.proj, v[1], rt)
@model('core::str::converts::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked_mut')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    check_utf8(m, st, seq_of(m, st, cell, proj), lo, n)
    return mkslice(cell, proj, lo, n, rt)
@model('core::str::converts::from_utf8', 'core::str::converts::from_utf8_mut')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0]); s = seq_of(m, st, cell, proj)
    r = utf8_ok(m, st, s, lo, n)
    if r: return ok(m, rt, mkslice(cell, proj, lo, n))
    key = utf8_key(m, st, s, lo, n); a = app('is_utf8', *key)
    if decided(m, st, Bn(('atom', a))):
        know_utf8(m, st, s, lo, n)
        return ok(m, rt, mkslice(cell, proj, lo, n))
    i = app('valid_up_to', *key, ty=m.T.prim('usize'), lo=0, hi=U63)
    if not st.add_fact(n - L(i) + (-1)): raise Done('unreach')
    return err(m, rt, Agg('core::str::error::Utf8Error', None, (L(i), UNIT, n), targs(m, rt)[1]))
@model('core::str::error::Utf8Error::error_len')
def _(m, st, c, v, at, rt):
    # none: the input ends within a character; some: that many octets (up to three) from there on are not one
    f = agg(m, st, loadv(m, st, v[0])).f; i, n = f[0], f[2]
    a = app('utf8_error_len', i, ty=m.T.prim('usize'), lo=0, hi=3)
    if decided(m, st, eq0(L(a))):
        if not st.add_fact(i + 3 - n): raise Done('unreach')
        return none(m, rt)
    if not st.add_fact(n - i - L(a)): raise Done('unreach')
    return some(m, rt, L(a))
@model('core::str::error::Utf8Error::valid_up_to')
def _(m, st, c, v, at, rt):
    return agg(m, st, loadv(m, st, v[0])).f[0]

def slice_index(m, st, base, idx, idxty, rt, checked):
    """-> pointer or None when out of bounds"""
    cell, proj, lo, n = slice_parts(m, st, base)
    T = m.T; t = T[T.peel(idxty)]
    if isinstance(idx, Lin):
        i = idx; cond = [ge0(n - i + (-1))]; res = Ptr(cell, proj + (('idx', lo + i),), None)
    else:
        g = agg(m, st, idx); p = g.path.split('::')[-1]
        if p == 'RangeFull': a, b = ZERO, n
        elif p == 'Range': a, b = g.f[0], g.f[1]
        elif p == 'RangeTo': a, b = ZERO, g.f[0]
        elif p == 'RangeFrom': a, b = g.f[0], n
        elif p == 'RangeInclusive': a, b = g.f[0], g.f[1] + 1
        elif p == 'RangeToInclusive': a, b = ZERO, g.f[0] + 1
        else: raise Unsupported('index by ' + g.path)
        cond = [ge0(b - a), ge0(n - b)]; res = mkslice(cell, proj, lo + a, b - a)
    if checked:
        allc = ('t',)
        for x in cond: allc = b_and(allc, x)
        if not decided(m, st, allc): return None
    else:
        m.obligation(st, 'an unchecked access stays in bounds', cond)
    return res
INDEX_SELFS = ('int', 'core::ops::range::Range', 'core::ops::range::RangeTo', 'core::ops::range::RangeFrom', 'core::ops::range::RangeFull', 'core::ops::range::RangeInclusive', 'core::ops::range::RangeToInclusive')
def utf8_slice_note(m, st, p):
    return p
@smodel('core::slice::index::SliceIndex::index', *INDEX_SELFS)
@smodel('core::slice::index::SliceIndex::index_mut', *INDEX_SELFS)
def _(m, st, c, v, at, rt):
    if str_index(m, rt): return str_sub(m, st, v[1], v[0], at[0], rt, 'index')
    p = slice_index(m, st, v[1], v[0], at[0], rt, True)
    if p is None: panic(st, 'index out of bounds')
    return Ptr(p.cell, p.proj, p.meta, rt)
def str_index(m, rt):
    t = m.T[rt]
    if t['k'] in ('ref', 'ptr'): return m.T[t['to']]['k'] == 'str'
    if t['k'] == 'adt' and t['path'] == OPTION: return str_index(m, targs(m, rt)[0])
    return False
def at_boundary(m, st, s, lo, n, i):
    if st.ent_eq(i, ZERO) or st.ent_eq(i, n): return True
    if not decided(m, st, ge0(n - i)): return False
    return decided(m, st, Bn(('atom', app('is_boundary', canon(m, st, subseq(m, st, s, lo, n)), i))))
@model('prim::str::is_char_boundary')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    return TRUE if at_boundary(m, st, seq_of(m, st, cell, proj), lo, n, v[1]) else FALSE
@model('prim::str::floor_char_boundary')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0]); i = v[1]
    if decided(m, st, ge0(i - n)): return n
    s = seq_of(m, st, cell, proj)
    for _ in range(4):
        if at_boundary(m, st, s, lo, n, i): return i
        i = i + (-1)
    raise Done('unreach')
@model('prim::str::split_at', 'prim::str::split_at_checked', 'prim::str::split_at_mut')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0]); s = seq_of(m, st, cell, proj)
    if not at_boundary(m, st, s, lo, n, v[1]):
        if c['name'] == 'split_at_checked': return none(m, rt)
        panic(st, 'not a character boundary')
    u = lambda a, k: (a, k)
    st.ghost['@utf8'] = st.ghost.get('@utf8', ()) + ((s.base, lo, v[1], s.layers), (s.base, lo + v[1], n - v[1], s.layers))
    r = Agg('()', None, (mkslice(cell, proj, lo, v[1]), mkslice(cell, proj, lo + v[1], n - v[1])), arg0(m, rt) if c['name'] == 'split_at_checked' else rt)
    return some(m, rt, r) if c['name'] == 'split_at_checked' else r
def str_end(m, st, v, at, back):
    """whether a string starts (ends) with a pattern -> (bool, its parts, length of the pattern) or None"""
    cell, proj, lo, n = slice_parts(m, st, v[0]); s = seq_of(m, st, cell, proj); t = m.T[at[1]]
    if t['k'] == 'ref' and m.T[m.T.peel(t['to'])]['k'] == 'str':
        p = slice_value(m, st, v[1]); k = p.len
        if not decided(m, st, ge0(n - k)): return False, (cell, proj, lo, n), k
        return decided(m, st, slices_equal(m, st, subseq(m, st, s, lo + (n - k if back else ZERO), k), p)), (cell, proj, lo, n), k
    if t['k'] == 'char' and isinstance(v[1], Lin) and v[1].const() is not None and v[1].c < 128:
        if not decided(m, st, ge0(n + (-1))): return False, (cell, proj, lo, n), ONE
        x = m.seq_read(st, s, lo + (n + (-1) if back else ZERO))
        if isinstance(x, Lin): return decided(m, st, eq0(x - v[1])), (cell, proj, lo, n), ONE
    return None
@model('prim::str::starts_with', 'prim::str::ends_with')
def _(m, st, c, v, at, rt):
    r = str_end(m, st, v, at, c['name'] == 'ends_with')
    if r is None: st.note('no model of ' + c['path']); return m.fresh('r:' + c['name'], rt, unk=True)
    return TRUE if r[0] else FALSE
@model('prim::str::strip_prefix', 'prim::str::strip_suffix')
def _(m, st, c, v, at, rt):
    b = c['name'] == 'strip_suffix'; r = str_end(m, st, v, at, b)
    if r is None: st.note('no model of ' + c['path']); return m.fresh('r:' + c['name'], rt, unk=True)
    if not r[0]: return none(m, rt)
    (cell, proj, lo, n), k = r[1], r[2]; s = seq_of(m, st, cell, proj); o = lo if b else lo + k
    st.ghost['@utf8'] = st.ghost.get('@utf8', ()) + ((s.base, o, n - k, s.layers),)
    return some(m, rt, mkslice(cell, proj, o, n - k, arg0(m, rt)))
@model('prim::str::trim', 'prim::str::trim_end', 'prim::str::trim_start', 'prim::str::trim_end_matches', 'prim::str::trim_start_matches', 'prim::str::trim_matches')
def _(m, st, c, v, at, rt):
    """a part of the string: which one is for its characters to say"""
    cell, proj, lo, n = slice_parts(m, st, v[0]); s = seq_of(m, st, cell, proj); k = (canon(m, st, subseq(m, st, s, lo, n)), c['name']) + tuple(v[1:])
    a = ZERO if 'end' in c['name'] else L(app('trimmed-front', *k, lo=0, hi=U63)); b = ZERO if 'start' in c['name'] else L(app('trimmed-back', *k, lo=0, hi=U63))
    if not st.add_fact(n - a - b): raise Done('unreach')
    st.ghost['@utf8'] = st.ghost.get('@utf8', ()) + ((s.base, lo + a, n - a - b, s.layers),)
    return mkslice(cell, proj, lo + a, n - a - b, rt)
@model('prim::slice::rotate_left', 'prim::slice::rotate_right')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0]); k = v[1]
    if not decided(m, st, ge0(n - k)): panic(st, 'rotation by more than the length')
    if c['name'] == 'rotate_right': k = n - k
    s = subseq(m, st, seq_of(m, st, cell, proj), lo, n)
    q = Ptr(m.new_cell(st, s), (('idx', ZERO),))
    m.copy(st, m.ptr_add(st, q, k), mkslice(cell, proj, lo, n), n - k)
    m.copy(st, q, mkslice(cell, proj, lo + (n - k), k), k)
    return UNIT
def str_sub(m, st, base, idx, idxty, rt, how):
    cell, proj, lo, n = slice_parts(m, st, base)
    p = slice_index(m, st, base, idx, idxty, rt, how != 'unchecked')
    if p is None: 
        if how == 'get': return none(m, rt)
        panic(st, 'string index out of bounds')
    s = seq_of(m, st, cell, proj)
    # both ends must be character boundaries
    if how == 'unchecked': return Ptr(p.cell, p.proj, p.meta, rt)
    if not at_boundary(m, st, s, lo, n, p.proj[-1][1] - lo) or not at_boundary(m, st, s, lo, n, p.proj[-1][1] - lo + p.meta):
        if how == 'get': return none(m, rt)
        panic(st, 'not a character boundary')
    st.ghost['@utf8'] = st.ghost.get('@utf8', ()) + ((s.base, p.proj[-1][1], p.meta, s.layers),)
    q = Ptr(p.cell, p.proj, p.meta)
    return some(m, rt, q) if how == 'get' else q
@smodel('core::slice::index::SliceIndex::get', *INDEX_SELFS)
@smodel('core::slice::index::SliceIndex::get_mut', *INDEX_SELFS)
def _(m, st, c, v, at, rt):
    if str_index(m, rt): return str_sub(m, st, v[1], v[0], at[0], rt, 'get')
    p = slice_index(m, st, v[1], v[0], at[0], rt, True)
    return none(m, rt) if p is None else some(m, rt, p)
@model('prim::slice::get', 'prim::slice::get_mut')
def _(m, st, c, v, at, rt):
    p = slice_index(m, st, v[0], v[1], at[1], rt, True)
    return none(m, rt) if p is None else some(m, rt, p)
@model('prim::slice::get_unchecked', 'prim::slice::get_unchecked_mut')
def _(m, st, c, v, at, rt):
    p = slice_index(m, st, v[0], v[1], at[1], rt, False)
    return Ptr(p.cell, p.proj, p.meta, rt)
@smodel('core::ops::index::Index::index', 'slice', 'array')
@smodel('core::ops::index::IndexMut::index_mut', 'slice', 'array')
def _(m, st, c, v, at, rt):
    p = slice_index(m, st, v[0], v[1], at[1], rt, True)
    if p is None: panic(st, 'index out of bounds')
    return Ptr(p.cell, p.proj, p.meta, rt)
@smodel('core::ops::index::Index::index', VEC)
@smodel('core::ops::index::IndexMut::index_mut', VEC)
def _(m, st, c, v, at, rt):
    q, g = at_self(m, st, v[0], VEC)
    p = slice_index(m, st, vec_slice(m, st, g), v[1], at[1], rt, True)
    if p is None: panic(st, 'index out of bounds')
    return Ptr(p.cell, p.proj, p.meta, rt)
@model('prim::slice::first', 'prim::slice::last', 'prim::slice::first_mut', 'prim::slice::last_mut')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    if decided(m, st, eq0(n)): return none(m, rt)
    return some(m, rt, Ptr(cell, proj + (('idx', lo if 'first' in c['name'] else lo + n + (-1)),)))
@model('prim::slice::split_at', 'prim::slice::split_at_mut', 'prim::slice::split_at_unchecked', 'prim::slice::split_at_mut_unchecked')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    if not decided(m, st, ge0(n - v[1])): panic(st, 'split_at out of bounds')
    return Agg('()', None, (mkslice(cell, proj, lo, v[1]), mkslice(cell, proj, lo + v[1], n - v[1])), rt)
@model('prim::slice::swap')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    for i in (v[1], v[2]):
        if not decided(m, st, ge0(n - i + (-1))): panic(st, 'swap out of bounds')
    a = Ptr(cell, proj + (('idx', lo + v[1]),)); b = Ptr(cell, proj + (('idx', lo + v[2]),))
    x, y = m.load(st, a), m.load(st, b); m.store(st, a, y); m.store(st, b, x)
    return UNIT

# iterators over slices: (pointer to the first element, position, end)
ITER = 'core::slice::iter::Iter'; ITERM = 'core::slice::iter::IterMut'
def slice_iter(m, st, p, rt):
    cell, proj, lo, n = slice_parts(m, st, p)
    return Agg('@sliceiter', None, (Ptr(cell, proj + (('idx', lo),)), ZERO, n), rt)
@model('prim::slice::iter', 'prim::slice::iter_mut')
def _(m, st, c, v, at, rt): return slice_iter(m, st, v[0], rt)
@smodel('core::iter::traits::collect::IntoIterator::into_iter', 'ref')
def _(m, st, c, v, at, rt):
    to = m.T.peel(m.T[c['self']]['to']); t = m.T[to]
    if t['k'] in ('slice', 'array'): return slice_iter(m, st, v[0], rt)
    if t['k'] == 'adt' and t['path'] == VEC:
        p, g = at_self(m, st, v[0], VEC); return slice_iter(m, st, vec_slice(m, st, g), rt)
    if t['k'] == 'adt' and t['path'] == LIST: return M['alloc::collections::linked_list::LinkedList::iter'](m, st, c, v, at, rt)
    if t['k'] == 'adt' and t['path'] in (HMAP, HSET): return M['std::collections::hash::map::HashMap::iter'](m, st, c, v, at, rt)
    if c.get('body') is not None: return ('@call', c['body'], v, None)
    raise Unsupported('into_iter of ' + t['s'])
def it_next(m, st, v, rt, back=False, n=None):
    p = deref_once(m, st, v[0]); g = agg(m, st, m.load(st, p))
    if g.path != '@sliceiter': raise Unsupported('iterator ' + show(g))
    base, pos, end = g.f
    if n is not None:
        if not decided(m, st, ge0(end - pos - n + (-1))):
            m.store(st, p, Agg(g.path, None, (base, end, end), g.ty)); return none(m, rt)
        if back: pos2, end2, i = pos, end - n + (-1), end - n + (-1)
        else: pos2, end2, i = pos + n + 1, end, pos + n
    else:
        if not decided(m, st, ge0(end - pos + (-1))): return none(m, rt)
        if back: pos2, end2, i = pos, end + (-1), end + (-1)
        else: pos2, end2, i = pos + 1, end, pos
    m.store(st, p, Agg(g.path, None, (base, pos2, end2), g.ty))
    q = Ptr(base.cell, base.proj[:-1] + (('idx', base.proj[-1][1] + i),))
    return some(m, rt, item_of(m, st, q, rt))
def item_of(m, st, q, rt):
    """the iterator item for an element pointer: &T, &mut T, or (&K, &V) for pairs"""
    ity = targs(m, rt)[0]; t = m.T[ity]
    if t['k'] == 'tuple' and len(t['args']) == 2:
        if m.T[t['args'][1]]['k'] == 'ref' and m.T.s(m.T[t['args'][1]]['to']) == '()': return Agg('()', None, (q, Ptr(m.new_cell(st, UNIT))), ity)
        return Agg('()', None, (Ptr(q.cell, q.proj + (('f', 0),)), Ptr(q.cell, q.proj + (('f', 1),))), ity)
    return Ptr(q.cell, q.proj, None, ity)
VINTO = 'alloc::vec::into_iter::IntoIter'
@smodel('core::iter::traits::collect::IntoIterator::into_iter', VEC)
def _(m, st, c, v, at, rt):
    return Agg('@sliceiter', None, (vec_slice(m, st, agg(m, st, v[0])), ZERO, vec_parts(m, st, v[0])[2]), rt)
def moved(back):
    def f(m, st, c, v, at, rt):
        r = it_next(m, st, v, rt, back)
        if r.var == 0: return r
        q = r.f[0]; x = m.load(st, Ptr(q.cell, q.proj)); return some(m, rt, x)
    return f
MS[('core::iter::traits::iterator::Iterator::next', VINTO)] = moved(False)
MS[('core::iter::traits::double_ended::DoubleEndedIterator::next_back', VINTO)] = moved(True)
ITERS = (ITER, ITERM, 'alloc::collections::linked_list::Iter', 'alloc::collections::linked_list::IterMut', 'hashbrown::map::Iter', 'std::collections::hash::map::Iter', 'std::collections::hash::set::Iter', 'hashbrown::set::Iter',
         'std::collections::hash::map::Keys')
@smodel('core::iter::traits::iterator::Iterator::next', *ITERS)
def _(m, st, c, v, at, rt): return it_next(m, st, v, rt)
@smodel('core::iter::traits::double_ended::DoubleEndedIterator::next_back', *ITERS)
def _(m, st, c, v, at, rt): return it_next(m, st, v, rt, True)
@smodel('core::iter::traits::iterator::Iterator::nth', *ITERS)
def _(m, st, c, v, at, rt): return it_next(m, st, v, rt, False, v[1])
@smodel('core::iter::traits::iterator::Iterator::size_hint', VINTO, *ITERS)
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv(m, st, v[0])); n = g.f[2] - g.f[1]
    return Agg('()', None, (n, some(m, targs(m, rt)[1], n)), rt)
@smodel('core::iter::traits::exact_size::ExactSizeIterator::len', VINTO, *ITERS)
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv(m, st, v[0])); return g.f[2] - g.f[1]
@model('alloc::vec::into_iter::IntoIter::as_slice', 'core::slice::iter::Iter::as_slice', 'core::slice::iter::IterMut::as_slice', 'core::slice::iter::IterMut::into_slice')
def _(m, st, c, v, at, rt):
    g = v[0]
    if isptr(g): g = m.load(st, g)
    g = agg(m, st, g); b = g.f[0]
    return mkslice(b.cell, b.proj[:-1], b.proj[-1][1] + g.f[1], g.f[2] - g.f[1], rt)

# zip of two slice iterators
ZIP = 'core::iter::adapters::zip::Zip'
@model('core::iter::adapters::zip::Zip::new', 'core::iter::adapters::zip::ZipImpl::new', 'core::iter::adapters::zip::zip')
def _(m, st, c, v, at, rt): return Agg('@zip', None, (v[0], v[1]), rt)
@smodel('core::iter::traits::iterator::Iterator::next', ZIP)
def _(m, st, c, v, at, rt):
    p = deref_once(m, st, v[0]); g = agg(m, st, m.load(st, p))
    if g.path != '@zip': raise Unsupported('zip ' + show(g))
    a, b = g.f
    if not (isinstance(a, Agg) and isinstance(b, Agg) and a.path == '@sliceiter' and b.path == '@sliceiter'):
        if c.get('shadow') is not None: return ('@call', c['shadow'], v, None)
        raise Unsupported('zip of ' + show(a))
    ca, cb = ge0(a.f[2] - a.f[1] + (-1)), ge0(b.f[2] - b.f[1] + (-1))
    if not decided(m, st, ca) or not decided(m, st, cb): return none(m, rt)
    it = m.T[targs(m, rt)[0]]['args']
    def nx(x, ty):
        q = Ptr(x.f[0].cell, x.f[0].proj[:-1] + (('idx', x.f[0].proj[-1][1] + x.f[1]),), None, ty)
        return q, Agg(x.path, None, (x.f[0], x.f[1] + 1, x.f[2]), x.ty)
    qa, a2 = nx(a, it[0]); qb, b2 = nx(b, it[1])
    m.store(st, p, Agg('@zip', None, (a2, b2), g.ty))
    return some(m, rt, Agg('()', None, (qa, qb), targs(m, rt)[0]))

# ---------------------------------------------------------------- linked lists, maps
@model('alloc::collections::linked_list::LinkedList::new')
def _(m, st, c, v, at, rt):
    ety = targs(m, rt)[0]
    cc = m.new_cell(st, Seq(L(sym('list-bound', None, U63, U63)), ety, ('uninit',)))
    return Agg(LIST, None, (Ptr(cc, (('idx', ZERO),)), ZERO, ZERO), rt)
@model('alloc::collections::linked_list::LinkedList::len')
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv(m, st, v[0])); return g.f[2] - g.f[1]
@model('alloc::collections::linked_list::LinkedList::push_back', 'alloc::collections::linked_list::LinkedList::push_front')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f
    back = c.get('rpath', c['path']).endswith('push_back')
    i = hi if back else lo + (-1)
    s = seq_of(m, st, q.cell, q.proj[:-1])
    st.mem[q.cell] = m.proj_write(st, s, (('idx', i),), v[1])
    m.store(st, p, Agg(LIST, None, (q, lo, hi + 1) if back else (q, lo + (-1), hi), g.ty))
    return UNIT
@model('alloc::collections::linked_list::LinkedList::split_off')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f; i = v[1]
    if not decided(m, st, ge0(hi - lo - i)): panic(st, 'split_off: behind the end')
    s = subseq(m, st, seq_of(m, st, q.cell, q.proj[:-1]), lo + i, hi - lo - i)
    cc = m.new_cell(st, s)
    m.store(st, p, Agg(LIST, None, (q, lo, lo + i), g.ty))
    return Agg(LIST, None, (Ptr(cc, (('idx', ZERO),)), ZERO, hi - lo - i), rt)
def list_append(m, st, p, g, o):
    q, lo, hi = g.f; oq, olo, ohi = o.f; n = ohi - olo
    d = seq_of(m, st, q.cell, q.proj[:-1]); s = seq_of(m, st, oq.cell, oq.proj[:-1])
    st.mem[q.cell] = m.proj_write(st, m.cell_value(st, q.cell), q.proj[:-1], m.seq_blit(st, d, hi, s, olo, n))
    m.store(st, p, Agg(LIST, None, (q, lo, hi + n), g.ty))
@model('alloc::collections::linked_list::LinkedList::append')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); o_p, o = at_self(m, st, v[1], LIST)
    list_append(m, st, p, g, o)
    cc = m.new_cell(st, Seq(L(sym('list-bound', None, U63, U63)), targs(m, m.T[at[0]]['to'])[0], ('uninit',)))
    m.store(st, o_p, Agg(LIST, None, (Ptr(cc, (('idx', ZERO),)), ZERO, ZERO), o.ty))
    return UNIT
@smodel('alloc::collections::linked_list::SpecExtend::spec_extend', LIST)
@smodel('alloc::collections::SpecExtend::spec_extend', LIST)
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST)
    o = agg(m, st, v[1])
    if o.path != LIST: raise Unsupported('extending a list by ' + show(o))
    list_append(m, st, p, g, o); return UNIT
@model('alloc::collections::linked_list::LinkedList::pop_front', 'alloc::collections::linked_list::LinkedList::pop_back')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f
    if not decided(m, st, ge0(hi - lo + (-1))): return none(m, rt)
    back = c.get('rpath', c['path']).endswith('back')
    i = hi + (-1) if back else lo
    x = m.seq_read(st, seq_of(m, st, q.cell, q.proj[:-1]), i)
    m.store(st, p, Agg(LIST, None, (q, lo, hi + (-1)) if back else (q, lo + 1, hi), g.ty))
    return some(m, rt, x)
@model('alloc::collections::linked_list::LinkedList::front', 'alloc::collections::linked_list::LinkedList::back', 'alloc::collections::linked_list::LinkedList::front_mut', 'alloc::collections::linked_list::LinkedList::back_mut')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f
    if not decided(m, st, ge0(hi - lo + (-1))): return none(m, rt)
    return some(m, rt, Ptr(q.cell, q.proj[:-1] + (('idx', hi + (-1) if '::back' in c.get('rpath', c['path']) else lo),), None, targs(m, rt)[0]))
@model('alloc::collections::linked_list::LinkedList::is_empty')
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv(m, st, v[0])); return Bn(eq0(g.f[2] - g.f[1]))
@model('alloc::collections::linked_list::LinkedList::clear')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f
    m.store(st, p, Agg(LIST, None, (q, lo, lo), g.ty)); return UNIT
@model('alloc::collections::linked_list::LinkedList::iter', 'alloc::collections::linked_list::LinkedList::iter_mut')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], LIST); q, lo, hi = g.f
    return Agg('@sliceiter', None, (Ptr(q.cell, q.proj[:-1] + (('idx', ZERO),)), lo, hi), rt)
@model('std::collections::hash::map::HashMap::with_capacity_and_hasher', 'std::collections::hash::set::HashSet::with_capacity_and_hasher', 'std::collections::hash::map::HashMap::with_hasher', 'std::collections::hash::set::HashSet::with_hasher',
       'std::collections::hash::map::HashMap::new', 'std::collections::hash::set::HashSet::new')
def _(m, st, c, v, at, rt):
    if 'with_capacity' in c.get('rpath', c['path']): allocated(m, st, v[0])
    cc = m.new_cell(st, Seq(L(sym('list-bound', None, U63, U63)), pair_ty(m, rt), ('uninit',)))
    return Agg(m.T[rt]['path'], None, (Ptr(cc, (('idx', ZERO),)), ZERO), rt)
@model('std::collections::hash::map::HashMap::len', 'std::collections::hash::set::HashSet::len')
def _(m, st, c, v, at, rt):
    q, n = agg(m, st, loadv(m, st, v[0])).f
    # fewer entries than insertions, if keys from arbitrary input repeat
    if q.cell in st.ghost.get('@repeats', ()) and decided(m, st, ge0(n + (-2))) and not decided(m, st, ('atom', app('distinct', q.cell, n))):
        r = L(app('entries', q.cell, n, ty=rt, lo=1, hi=U63)); st.add_fact(n - r + (-1)); return r
    return n
@model('std::collections::hash::map::HashMap::contains_key', 'std::collections::hash::set::HashSet::contains')
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv(m, st, v[0])); q, n = g.f
    if decided(m, st, eq0(n)): return FALSE
    # keys of an abstract map compare as they like; those of an encoded map are distinct
    k = m.load(st, deref_once(m, st, v[1]))
    if isinstance(k, A) and not from_input(k): return FALSE
    return Bn(('atom', app('contains', q.cell, n, m.load(st, deref_once(m, st, v[1])))))
def contains_key(m, st, p, k):
    """is the key in the map? decided on the path, consistently"""
    g = m.load(st, p)
    if isinstance(g, A): g = agg(m, st, g)
    q, n = g.f
    if decided(m, st, eq0(n)): return False
    if isinstance(k, A) and not from_input(k): return False
    return decided(m, st, ('atom', app('has', q.cell, n, k)))
def map_append(m, st, p, k, v):
    """the log of insertions grows by an entry; -> pointer to its value"""
    g = m.load(st, p)
    if isinstance(g, A): g = agg(m, st, g)
    q, n = g.f; s = seq_of(m, st, q.cell, q.proj[:-1])
    st.mem[q.cell] = m.proj_write(st, s, (('idx', n),), Agg('()', None, (k, v), pair_ty(m, g.ty)))
    m.store(st, p, Agg(g.path, None, (q, n + 1), g.ty))
    return Ptr(q.cell, q.proj[:-1] + (('idx', n), ('f', 1)))
def map_found(m, st, p, k):
    """the value of a key that is there: an unknown one, re-inserted so that what is written through it is seen"""
    g = m.load(st, p)
    if isinstance(g, A): g = agg(m, st, g)
    q, n = g.f; ty = m.T[pair_ty(m, g.ty)]['args'][1]
    return map_append(m, st, p, k, m.val_of(app('found', q.cell, n, k, ty=ty), ty))
@model('std::collections::hash::map::HashMap::entry')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], HMAP)
    return Agg('std::collections::hash::map::Entry', 0 if contains_key(m, st, p, v[1]) else 1, (Agg('@entry', None, (p, v[1])),), rt)
HENT = 'std::collections::hash::map::'
def entry(m, st, x):
    e = m.load(st, x) if isptr(x) else x
    if not (isinstance(e, Agg) and e.path == '@entry'): raise Unsupported('map entry ' + show(e))
    return e.f
@model(HENT + 'OccupiedEntry::into_mut', HENT + 'OccupiedEntry::get_mut', HENT + 'OccupiedEntry::get')
def _(m, st, c, v, at, rt): p, k = entry(m, st, v[0]); return map_found(m, st, p, k)
@model(HENT + 'OccupiedEntry::insert')
def _(m, st, c, v, at, rt):
    p, k = entry(m, st, v[0]); q = map_found(m, st, p, k); old = m.load(st, q); m.store(st, q, v[1]); return old
@model(HENT + 'VacantEntry::insert')
def _(m, st, c, v, at, rt): allocated(m, st, 1); p, k = entry(m, st, v[0]); return map_append(m, st, p, k, v[1])
@model(HENT + 'Entry::insert_entry', HENT + 'VacantEntry::insert_entry')
def _(m, st, c, v, at, rt):
    e = v[0]
    if isinstance(e, Agg) and e.path.endswith('Entry') and e.f and not e.path.startswith('@'): e = e.f[0]
    allocated(m, st, 1); p, k = entry(m, st, e); map_append(m, st, p, k, v[1])
    return Agg('@entry', None, (p, k))
@model(HENT + 'HashMap::get', HENT + 'HashMap::get_mut')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], HMAP); k = m.load(st, deref_once(m, st, v[1]))
    if not contains_key(m, st, p, k): return none(m, rt)
    if c.get('rpath', c['path']).endswith('get'):      # reading leaves the log as it is
        q, n = g.f; ty = m.T[pair_ty(m, g.ty)]['args'][1]
        return some(m, rt, Ptr(m.new_cell(st, m.val_of(app('found', q.cell, n, k, ty=ty), ty))))
    return some(m, rt, map_found(m, st, p, k))
@model('std::collections::hash::map::HashMap::is_empty', 'std::collections::hash::set::HashSet::is_empty')
def _(m, st, c, v, at, rt): return Bn(eq0(agg(m, st, loadv(m, st, v[0])).f[1]))
@model('std::collections::hash::map::HashMap::iter', 'std::collections::hash::set::HashSet::iter')
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], HMAP); q, n = g.f
    return Agg('@sliceiter', None, (Ptr(q.cell, q.proj[:-1] + (('idx', ZERO),)), ZERO, n), rt)
@model('std::collections::hash::map::HashMap::insert', 'std::collections::hash::set::HashSet::insert')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    # insertion log: with pairwise distinct keys (which is what an encoded map yields) every insertion adds an entry
    p, g = at_self(m, st, v[0], HMAP); q, n = g.f
    s = seq_of(m, st, q.cell, q.proj[:-1])
    e = v[1] if len(v) == 2 else Agg('()', None, (v[1], v[2]), pair_ty(m, g.ty))
    st.mem[q.cell] = m.proj_write(st, s, (('idx', n),), e)
    m.store(st, p, Agg(g.path, None, (q, n + 1), g.ty))
    if from_input(v[1]): st.ghost['@repeats'] = st.ghost.get('@repeats', ()) + ((q.cell,) if q.cell not in st.ghost.get('@repeats', ()) else ())
    if m.T[rt]['k'] == 'bool':
        k = v[1]
        # a key that comes from arbitrary input may be there already; those of an encoded set are distinct
        if from_input(k) and not decided(m, st, eq0(n)): return Bn(('atom', app('inserted', q.cell, n, k)))
        return TRUE
    return none(m, rt)

# ---------------------------------------------------------------- smart pointers, cells, locks
@model('alloc::boxed::Box::new')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    return box_of(m, Ptr(m.new_cell(st, v[0])), rt)
def box_of(m, p, rt): return Agg(BOX, None, (Agg('core::ptr::unique::Unique', None, (Agg('core::ptr::non_null::NonNull', None, (p,)), UNIT)), UNIT), rt)
@model('alloc::boxed::Box::new_uninit')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    t = m.T[targs(m, rt)[0]]; p = targs(m, targs(m, rt)[0])[0] if t['k'] == 'adt' else None
    if p is not None and m.T[p]['k'] == 'array':
        return box_of(m, Ptr(m.new_cell(st, Seq(m.T.const(m.T[p]['len']), m.T[p]['elem'], ('uninit',)))), rt)
    return box_of(m, Ptr(m.new_cell(st, UNINIT)), rt)
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); s = seq_of(m, st, p.cell, p.proj)
    m.check_init(st, s, ZERO, s.len, 'every element of a slice is initialised')
    return Agg(VEC, None, (Ptr(p.cell, p.proj + (('idx', ZERO),)), s.len), rt)
@model('alloc::boxed::Box::from_raw')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); given_back(m, st, p, p.meta if isinstance(p.meta, Lin) else None)
    return box_of(m, p, rt)
@model('alloc::boxed::Box::into_raw', 'alloc::boxed::Box::leak')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); return Ptr(p.cell, p.proj, p.meta, rt)
@model('alloc::rcs::rc::Rc::new', 'alloc::rcs::arc::Arc::new', 'alloc::rc::Rc::new', 'alloc::sync::Arc::new')
def _(m, st, c, v, at, rt):
    allocated(m, st, 1)
    return Agg(m.T[rt]['path'], None, (Ptr(m.new_cell(st, v[0])),), rt)
@model('prim::slice::into_vec')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0]); cell, proj, lo, n = slice_parts(m, st, p)
    if lo != ZERO: raise Unsupported('into_vec')
    return Agg(VEC, None, (Ptr(cell, proj + (('idx', ZERO),)), n), rt)
@smodel('core::ops::deref::Deref::deref', BOX, RC, ARC, 'core::cell::lazy::LazyCell', 'std::sync::lazy_lock::LazyLock', 'std::sync::poison::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockReadGuard', 'std::sync::poison::rwlock::RwLockWriteGuard', VEC, STRING, CSTRING, COW)
@smodel('core::ops::deref::DerefMut::deref_mut', BOX, VEC, STRING, 'std::sync::poison::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockWriteGuard')
@smodel('core::borrow::Borrow::borrow', BOX, RC, ARC, VEC, STRING, CSTRING, COW)
@smodel('core::convert::AsRef::as_ref', BOX, RC, ARC, VEC, STRING, CSTRING, COW)
def _(m, st, c, v, at, rt):
    h = head(m, c['self']); p = deref_once(m, st, v[0])
    if h in (VEC, STRING, CSTRING):
        q, g = at_self(m, st, v[0], VEC); x = vec_slice(m, st, g); return Ptr(x.cell, x.proj, x.meta, rt)
    if h in ('core::cell::lazy::LazyCell', 'std::sync::lazy_lock::LazyLock'): return Ptr(p.cell, p.proj + (('f', 0),), None, rt)
    if h == COW:
        g = agg(m, st, m.load(st, p))
        if isinstance(m.load(st, p), A): st.mem[p.cell] = m.proj_write(st, m.cell_value(st, p.cell), p.proj, g)        # what is known of it, not a write
        if g.var == 0: q = deref(m, st, g.f[0]); return Ptr(q.cell, q.proj, q.meta, rt)
        o = g.f[0]; oty = o.ty if isinstance(o, (A, Agg)) else None
        tt = m.T[oty] if oty is not None else None
        inner = Ptr(p.cell, p.proj + (('down', 1), ('f', 0)))
        if tt and tt['k'] == 'adt' and tt['path'] in (VEC, STRING, CSTRING): x = vec_slice(m, st, o); return Ptr(x.cell, x.proj, x.meta, rt)
        return borrow_generic(m, st, inner, oty, rt)
    g = agg(m, st, m.load(st, p)); q = deref(m, st, g)
    return Ptr(q.cell, q.proj, q.meta, rt)
def borrow_generic(m, st, p, oty, rt):
    """<T::Owned as Borrow<T>>::borrow for an abstract owned type: a value that is the same object as far as T is concerned"""
    v = m.load(st, p); to = m.T[rt]['to']
    if oty is not None and m.T.s(oty) == m.T.s(to): return Ptr(p.cell, p.proj, None, rt)
    a = app('borrowed', v, ty=rt)
    return m.val_of(a, rt)
@model('core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut')
def _(m, st, c, v, at, rt):
    to = m.T[rt]['to']; self = m.T[at[0]]['to']
    if m.T.s(to) == m.T.s(self): return v[0]
    if m.T[self]['k'] == 'ref' and m.T.s(m.T[self]['to']) == m.T.s(to): return m.load(st, deref_once(m, st, v[0]))
    if c.get('body') is not None and c['k'] == 'item': return ('@call', c['body'], v, None)
    if c['k'] == 'unresolved' and m.T[self]['k'] in ('param', 'alias') and m.T[to]['k'] in ('param', 'alias'): return borrow_generic(m, st, deref_once(m, st, v[0]), c.get('self'), rt)
    if c['k'] == 'unresolved': return borrow_generic(m, st, deref_once(m, st, v[0]), c.get('self'), rt)
    return fallback(m, st, c, v, at, rt)
@unres('core::borrow::Borrow::borrow')
def _(m, st, c, v, at, rt):
    return borrow_generic(m, st, deref_once(m, st, v[0]), c.get('self'), rt)
@model('std::sync::poison::mutex::Mutex::new', 'std::sync::poison::rwlock::RwLock::new', 'core::sync::atomic::Atomic::new')
def _(m, st, c, v, at, rt): return Agg(m.T[rt]['path'], None, (v[0],), rt)
def ordering_not(m, st, v, bad, what):
    for o in (v if isinstance(v, list) else [v]):
        if isinstance(o, Agg) and o.var in bad: panic(st, what)
@model('core::sync::atomic::Atomic::load')
def _(m, st, c, v, at, rt):
    ordering_not(m, st, v[1], (1, 3), 'there is no such ordering for a load')
    p = deref_once(m, st, v[0]); return m.load(st, Ptr(p.cell, p.proj + (('f', 0),)))
@model('core::sync::atomic::Atomic::into_inner')
def _(m, st, c, v, at, rt): return agg(m, st, v[0]).f[0]
@model('core::sync::atomic::Atomic::store')
def _(m, st, c, v, at, rt):
    ordering_not(m, st, v[2], (2, 3), 'there is no such ordering for a store')
    p = deref_once(m, st, v[0]); m.store(st, Ptr(p.cell, p.proj + (('f', 0),)), v[1]); st.ghost['@shared-write'] = True; return UNIT
def poisoned(st, p): return FALSE if tuple(where(p)) in st.ghost.get('@unpoisoned', ()) else Bn(('atom', app('poisoned', *where(p))))
@model('std::sync::poison::mutex::Mutex::is_poisoned', 'std::sync::poison::rwlock::RwLock::is_poisoned')
def _(m, st, c, v, at, rt): return poisoned(st, deref_once(m, st, v[0]))
@model('std::sync::poison::mutex::Mutex::clear_poison', 'std::sync::poison::rwlock::RwLock::clear_poison')
def _(m, st, c, v, at, rt):
    st.ghost['@unpoisoned'] = st.ghost.get('@unpoisoned', frozenset()) | {tuple(where(deref_once(m, st, v[0])))}; return UNIT
def lock(m, st, v, rt, kind):
    p = deref_once(m, st, v[0]); a = targs(m, rt); g = m.T[a[0]]
    guard = held(st, Agg(g['path'], None, (Ptr(p.cell, p.proj + (('f', 0),)),), a[0]))
    if decided(m, st, poisoned(st, p)): return err(m, rt, Agg('std::sync::poison::PoisonError', None, (guard,), a[1]))
    return ok(m, rt, guard)
@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::read', 'std::sync::poison::rwlock::RwLock::write')
def _(m, st, c, v, at, rt): return lock(m, st, v, rt, c['name'])
@model('std::sync::poison::mutex::Mutex::try_lock', 'std::sync::poison::rwlock::RwLock::try_read')
def _(m, st, c, v, at, rt):
    a = targs(m, rt); p = deref_once(m, st, v[0])
    if decided(m, st, Bn(('atom', app('lockedelsewhere', *where(p))))):
        return err(m, rt, m.fresh('TryLockError', a[1]))
    return ok(m, rt, held(st, Agg(m.T[a[0]]['path'], None, (Ptr(p.cell, p.proj + (('f', 0),)),), a[0])))
@model('std::sync::poison::PoisonError::into_inner')
def _(m, st, c, v, at, rt): return agg(m, st, v[0]).f[0]
@model('std::sync::poison::PoisonError::get_ref')
def _(m, st, c, v, at, rt):
    p = deref_once(m, st, v[0]); return Ptr(p.cell, p.proj + (('f', 0),), None, rt)
@model('std::sync::poison::mutex::Mutex::into_inner', 'std::sync::poison::rwlock::RwLock::into_inner')
def _(m, st, c, v, at, rt): return ok(m, rt, agg(m, st, v[0]).f[0])
@model('core::cell::lazy::LazyCell::force', 'std::sync::lazy_lock::LazyLock::force')
def _(m, st, c, v, at, rt):
    p = deref_once(m, st, v[0]); return Ptr(p.cell, p.proj + (('f', 0),), None, rt)
@model('core::cell::RefCell::try_borrow')
def _(m, st, c, v, at, rt): return refcell(m, st, v, rt, False)
@model('core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut')
def _(m, st, c, v, at, rt):
    p = deref_once(m, st, v[0])
    if decided(m, st, Bn(('atom', app('borrowed-mutably', *where(p))))): panic(st, 'RefCell already borrowed')
    return held(st, Agg(m.T[rt]['path'], None, (Ptr(p.cell, p.proj + (('f', len(m.T.adts['core::cell::RefCell']['variants'][0]['fields']) - 1),)),), rt))
@model('core::cell::RefCell::try_borrow_mut')
def _(m, st, c, v, at, rt): return refcell(m, st, v, rt, True)
def refcell(m, st, v, rt, mut):
    p = deref_once(m, st, v[0]); a = targs(m, rt)
    # a shared borrow succeeds unless the cell is borrowed mutably; an exclusive one unless it is borrowed at all
    if decided(m, st, Bn(('atom', app('borrowed-mutably', *where(p))))): return err(m, rt, m.fresh('BorrowError', a[1]))
    if mut and decided(m, st, Bn(('atom', app('borrowed-shared', *where(p))))): return err(m, rt, m.fresh('BorrowMutError', a[1]))
    i = len(m.T.adts['core::cell::RefCell']['variants'][0]['fields']) - 1
    return ok(m, rt, held(st, Agg(m.T[a[0]]['path'], None, (Ptr(p.cell, p.proj + (('f', i),)),), a[0])))
@smodel('core::ops::deref::Deref::deref', 'core::cell::Ref', 'core::cell::RefMut')
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv1(m, st, v[0])); q = g.f[0]
    return Ptr(q.cell, q.proj, None, rt)
def loadv1(m, st, p): return m.load(st, deref_once(m, st, p))
@model('core::cell::RefCell::new')
def _(m, st, c, v, at, rt): return Agg('core::cell::RefCell', None, (Agg('core::cell::Cell', None, (ZERO,)), v[0]), rt)

# ---------------------------------------------------------------- numbers
def le_to(m, st, c, v, at, rt): return m.to_le(st, v[0], at[0])
def le_from(m, st, c, v, at, rt):
    s = v[0]
    if isinstance(s, A): s = m.expand(st, s)
    return m.from_le(st, s, rt)
def be_to(m, st, c, v, at, rt):
    s = m.to_le(st, v[0], at[0]); return Seq(s.len, s.ety, ('vals', tuple(reversed(s.base[1]))))
def be_from(m, st, c, v, at, rt):
    s = v[0]
    if isinstance(s, A): s = m.expand(st, s)
    n = s.len.const()
    return m.from_le(st, Seq(s.len, s.ety, ('vals', tuple(m.seq_read(st, s, Lin(n - 1 - i)) for i in range(n)))), rt)
INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
for t in INTS + ['f32', 'f64']:
    M['prim::%s::to_le_bytes' % t] = le_to; M['prim::%s::from_le_bytes' % t] = le_from
    M['prim::%s::to_ne_bytes' % t] = lambda *a: (be_to if BIG else le_to)(*a); M['prim::%s::from_ne_bytes' % t] = lambda *a: (be_from if BIG else le_from)(*a)
    M['prim::%s::to_be_bytes' % t] = be_to; M['prim::%s::from_be_bytes' % t] = be_from
def arith(op, kind):
    def f(m, st, c, v, at, rt):
        a, b = v[0], v[1] if len(v) > 1 else None; ty = at[0]; t = m.T[ty]
        lo, hi = m.T.bounds(ty)
        if op in ('div', 'rem'):
            if decided(m, st, eq0(b)):
                if kind == 'checked': return none(m, rt)
                panic(st, 'division by zero')
            r = m.binop(st, 'Div' if op == 'div' else 'Rem', a, b, ty)
            return some(m, rt, r) if kind == 'checked' else r
        if op == 'neg': r = -a
        else: r = a + b if op == 'add' else a - b if op == 'sub' else interp.mul(a, b)
        if kind == 'unchecked':
            m.obligation(st, 'unchecked arithmetic does not overflow', [ge0(r + (-lo)), ge0(-r + hi)]); return r
        if kind == 'wrapping': return m.trunc(st, r, t['bits'], t['signed'])
        good = b_and(ge0(r + (-lo)), ge0(-r + hi))
        if kind == 'checked': return some(m, rt, r) if decided(m, st, good) else none(m, rt)
        if kind == 'overflowing': return Agg('()', None, (m.trunc(st, r, t['bits'], t['signed']), Bn(b_not(good))), rt)
        if kind == 'saturating':
            if decided(m, st, ge0(r + (-lo))) is False: return Lin(lo)
            if decided(m, st, ge0(-r + hi)) is False: return Lin(hi)
            return r
    return f
for t in INTS:
    for op in ('add', 'sub', 'mul', 'div', 'rem', 'neg'):
        for kind in ('unchecked', 'wrapping', 'checked', 'overflowing', 'saturating'):
            M['prim::%s::%s_%s' % (t, kind, op)] = arith(op, kind)
    def _minv(m, st, c, v, at, rt): return Lin(m.T.bounds(at[0])[0])
    def _ispos(m, st, c, v, at, rt): return Bn(ge0(v[0] + (-1)))
    def _isneg(m, st, c, v, at, rt): return Bn(ge0(-v[0] + (-1)))
    M['prim::%s::is_positive' % t] = _ispos; M['prim::%s::is_negative' % t] = _isneg
    def _uabs(m, st, c, v, at, rt): return v[0] if decided(m, st, ge0(v[0])) else -v[0]
    M['prim::%s::unsigned_abs' % t] = _uabs
    def _castu(m, st, c, v, at, rt): return m.trunc(st, v[0], m.T[rt]['bits'], m.T[rt]['signed'])
    M['prim::%s::cast_unsigned' % t] = _castu; M['prim::%s::cast_signed' % t] = _castu
    def _mask(m, st, c, v, at, rt): return v[0]
    def _abs(m, st, c, v, at, rt): return v[0] if decided(m, st, ge0(v[0])) else m.trunc(st, -v[0], m.T[rt]['bits'], True)
    M['prim::%s::abs' % t] = _abs
    def _swap(m, st, c, v, at, rt):
        s = m.to_le(st, v[0], at[0]); return m.from_le(st, Seq(s.len, s.ety, ('vals', tuple(reversed(s.base[1])))), rt)
    M['prim::%s::swap_bytes' % t] = _swap; 
    def _tole(m, st, c, v, at, rt, swap=_swap): return swap(m, st, c, v, at, rt) if BIG else v[0]
    def _tobe(m, st, c, v, at, rt, swap=_swap): return v[0] if BIG else swap(m, st, c, v, at, rt)
    M['prim::%s::to_le' % t] = _tole; M['prim::%s::from_le' % t] = _tole
    M['prim::%s::to_be' % t] = _tobe; M['prim::%s::from_be' % t] = _tobe
    def _rot(m, st, c, v, at, rt):
        k = v[1].const(); s = m.to_le(st, v[0], at[0]); n = len(s.base[1])
        if k is None:
            b = lin_bounds(v[1])
            if b[0] is None or b[1] is None or b[1] - b[0] > 8: return m.fresh('rotated', rt, unk=True)
            k = next((i for i in range(b[0], b[1]) if decided(m, st, eq0(v[1] + (-i)))), b[1])
        k %= 8 * n
        if k % 8 and not m.T[at[0]].get('signed'):
            if c['name'] == 'rotate_right': k = 8 * n - k
            x = v[0]; k0 = x.const(); a = x.t[0][0] if not x.c and len(x.t) == 1 and x.t[0][1] == 1 else None
            if k0 is not None: return Lin((k0 << k | k0 >> 8 * n - k) & (1 << 8 * n) - 1)
            if a is not None and a.key[:2] == ('app', 'rotl'):          # of what was rotated before
                x, k = a.key[2], (k + a.key[3].const()) % (8 * n)
                if not k: return x
            return m.mkv('rotl', x, Lin(k), ty=rt)
        if k % 8: return m.fresh('rotated', rt, unk=True)
        k = k // 8 % n; k = n - k if c['name'] == 'rotate_left' else k
        return m.from_le(st, Seq(s.len, s.ety, ('vals', s.base[1][k:] + s.base[1][:k])), rt)
    M['prim::%s::rotate_left' % t] = _rot; M['prim::%s::rotate_right' % t] = _rot
    def _pow(m, st, c, v, at, rt):
        k = v[1].const()
        if k is None or k > 16 and v[0].const() is None or k > 256: return m.fresh('pow', rt, unk=True)
        r = ONE
        for _ in range(k): r = m.binop(st, 'Mul', r, v[0], at[0])
        return r
    M['prim::%s::pow' % t] = _pow
    def _nbits(m, st, c, v, at, rt):
        x = m.fresh('bits', rt, unk=True)
        if not st.add_fact(x) or not st.add_fact(Lin(m.T[at[0]]['bits']) - x): raise Done('unreach')
        return x
    for q in ('leading_zeros', 'trailing_zeros', 'leading_ones', 'trailing_ones', 'count_ones', 'count_zeros'): M['prim::%s::%s' % (t, q)] = _nbits
    def _ilog(m, st, c, v, at, rt): return m.fresh('bits', rt, unk=True)
def _minmax(sign):
    def f(m, st, c, v, at, rt):
        a, b = v[0], v[1]
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if c['k'] == 'item' and c.get('body') is not None: return ('@call', c['body'], v, None)
            return m.fresh('minmax', rt, unk=True)
        return a if decided(m, st, ge0((b - a) if sign < 0 else (a - b))) else b
    return f
for q, sg in (('min', -1), ('max', 1)):
    M['core::intrinsics::integer_' + q] = _minmax(sg); MS[('core::cmp::Ord::' + q, 'int')] = _minmax(sg)
    M['core::cmp::' + q] = _minmax(sg)
def _clamp(m, st, c, v, at, rt):
    x, lo, hi = v
    if not decided(m, st, ge0(hi - lo)): panic(st, 'clamp: min > max')
    return lo if decided(m, st, ge0(lo - x)) else hi if decided(m, st, ge0(x - hi)) else x
MS[('core::cmp::Ord::clamp', 'int')] = _clamp
def _tobits(m, st, c, v, at, rt): return m.bitcast(v[0], at[0], rt)
for t in ('f32', 'f64'):
    M['prim::%s::to_bits' % t] = _tobits; M['prim::%s::from_bits' % t] = _tobits
@model('prim::char::from_u32_unchecked', 'core::char::convert::from_u32_unchecked', 'core::char::from_u32_unchecked')
def _(m, st, c, v, at, rt):
    x = v[0]
    m.obligation(st, 'only Unicode scalar values become characters', [ge0(-x + 0x10FFFF), ('or', ge0(-x + 0xD7FF), ge0(x + (-0xE000)))] if st.decide(('or', ge0(-x + 0xD7FF), ge0(x + (-0xE000)))) is not None or has_unk(x) else [ge0(-x + 0x10FFFF), ge0(Lin(-1))])
    return x
@model('prim::char::from_u32', 'core::char::convert::from_u32')
def _(m, st, c, v, at, rt):
    x = v[0]
    if not decided(m, st, ge0(-x + 0x10FFFF)): return none(m, rt)
    if decided(m, st, ge0(-x + 0xD7FF)): return some(m, rt, x)
    return some(m, rt, x) if decided(m, st, ge0(x + (-0xE000))) else none(m, rt)
@model('prim::char::len_utf8')
def _(m, st, c, v, at, rt): return char_len(m, st, v[0])
def char_len(m, st, x):
    if decided(m, st, ge0(-x + 0x7F)): return ONE
    if decided(m, st, ge0(-x + 0x7FF)): return Lin(2)
    return Lin(3) if decided(m, st, ge0(-x + 0xFFFF)) else Lin(4)
@model('core::net::ip_addr::Ipv4Addr::from_bits', 'core::net::ip_addr::Ipv6Addr::from_bits')
def _(m, st, c, v, at, rt): return Agg(m.T[rt]['path'], None, (v[0],), rt)
@model('core::net::ip_addr::Ipv4Addr::to_bits', 'core::net::ip_addr::Ipv6Addr::to_bits')
def _(m, st, c, v, at, rt): return agg(m, st, v[0]).f[0]
@model('core::net::ip_addr::Ipv4Addr::octets', 'core::net::ip_addr::Ipv6Addr::octets')
def _(m, st, c, v, at, rt):
    p = v[0]; g = agg(m, st, m.load(st, p) if isptr(p) else p)
    s = m.to_le(st, g.f[0], m.T.prim('u32' if 'Ipv4' in c['path'] else 'u128'))
    return Seq(s.len, s.ety, ('vals', tuple(reversed(s.base[1]))))
@model('core::net::ip_addr::Ipv4Addr::from_octets', 'core::net::ip_addr::Ipv6Addr::from_octets')
def _(m, st, c, v, at, rt):
    t = m.T.prim('u32' if 'Ipv4' in c['path'] else 'u128')
    return Agg(m.T[rt]['path'], None, (be_from(m, st, c, v, at, t),), rt)
@smodel('core::convert::From::from', 'core::net::ip_addr::Ipv4Addr', 'core::net::ip_addr::Ipv6Addr')
def _(m, st, c, v, at, rt):
    t4 = 'Ipv4' in m.T[rt]['path']
    if m.T[at[0]]['k'] == 'int': return Agg(m.T[rt]['path'], None, (v[0],), rt)
    if m.T[at[0]]['k'] == 'array' and m.T.s(m.T[at[0]]['elem']) == 'u8': return Agg(m.T[rt]['path'], None, (be_from(m, st, c, v, at, m.T.prim('u32' if t4 else 'u128')),), rt)
    raise Unsupported('From for address')
@model('core::net::socket_addr::SocketAddrV4::new', 'core::net::socket_addr::SocketAddrV6::new')
def _(m, st, c, v, at, rt): return Agg(m.T[rt]['path'], None, v, rt)
def fieldref(i):
    def f(m, st, c, v, at, rt):
        p = deref_once(m, st, v[0]); return Ptr(p.cell, p.proj + (('f', i),), None, rt)
    return f
def fieldval(i):
    def f(m, st, c, v, at, rt):
        p = v[0]
        g = agg(m, st, m.load(st, p) if isptr(p) else p); return g.f[i]
    return f
for V in ('V4', 'V6'):
    M['core::net::socket_addr::SocketAddr%s::ip' % V] = fieldref(0); M['core::net::socket_addr::SocketAddr%s::port' % V] = fieldval(1)
M['core::net::socket_addr::SocketAddrV6::flowinfo'] = fieldval(2); M['core::net::socket_addr::SocketAddrV6::scope_id'] = fieldval(3)
M['core::time::Duration::as_secs'] = fieldval(0); M['core::time::Duration::subsec_nanos'] = fieldval(1)
@model('core::time::Duration::new')
def _(m, st, c, v, at, rt):
    s, n = v
    if decided(m, st, ge0(-n + 999999999)): return Agg(DUR, None, (s, n), rt)
    q = m.binop(st, 'Div', n, Lin(1000000000), m.T.prim('u32')); r = n - q.scale(1000000000)
    t = s + q
    if not decided(m, st, ge0(-t + ((1 << 64) - 1))): panic(st, 'Duration::new: overflow')
    return Agg(DUR, None, (t, r), rt)
@model('core::time::Duration::from_secs')
def _(m, st, c, v, at, rt): return Agg(DUR, None, (v[0], ZERO), rt)
@model('core::time::Duration::as_millis', 'core::time::Duration::as_nanos', 'core::time::Duration::subsec_millis', 'core::time::Duration::subsec_micros')
def _(m, st, c, v, at, rt):
    g = agg(m, st, loadv1(m, st, v[0])); s, n = g.f; nm = c['name']
    if nm == 'as_nanos': return s.scale(10 ** 9) + n
    d = {'as_millis': 10 ** 6, 'subsec_millis': 10 ** 6, 'subsec_micros': 10 ** 3}[nm]
    q = m.binop(st, 'Div', n, Lin(d), m.T.prim('u32'))
    return s.scale(1000) + q if nm == 'as_millis' else q

# points in time: whole seconds since the epoch (towards minus infinity) and nanoseconds
ST = 'std::time::SystemTime'
def st_of(m, st, v):
    p = v
    if isptr(p): p = m.load(st, p)
    if isinstance(p, A) and p.key[0] == 'app' and p.key[1] in ('const', 'mem'): return (ZERO, ZERO)   # UNIX_EPOCH
    g = agg(m, st, p); return g.f
def st_cmp(op):
    def f(m, st, c, v, at, rt):
        a, b = st_of(m, st, v[0]), st_of(m, st, v[1])
        x = (a[0] - b[0]); y = a[1] - b[1]
        lt = b_or(ge0(-x + (-1)), b_and(eq0(x), ge0(-y + (-1)))); eq = b_and(eq0(x), eq0(y))
        n = {'lt': lt, 'ge': b_not(lt), 'le': b_or(lt, eq), 'gt': b_not(b_or(lt, eq)), 'eq': eq, 'ne': b_not(eq)}[op]
        return TRUE if decided(m, st, n) else FALSE
    return f
for o in ('lt', 'le', 'gt', 'ge'): MS[('core::cmp::PartialOrd::' + o, ST)] = st_cmp(o)
for o in ('eq', 'ne'): MS[('core::cmp::PartialEq::' + o, ST)] = st_cmp(o)
@model('std::time::SystemTime::duration_since')
def _(m, st, c, v, at, rt):
    a, b = st_of(m, st, v[0]), st_of(m, st, v[1])
    lt = b_or(ge0(b[0] - a[0] + (-1)), b_and(eq0(a[0] - b[0]), ge0(b[1] - a[1] + (-1))))
    neg = decided(m, st, lt)
    if neg: a, b = b, a
    if decided(m, st, ge0(a[1] - b[1])): d = (a[0] - b[0], a[1] - b[1])
    else: d = (a[0] - b[0] + (-1), a[1] - b[1] + 10 ** 9)
    dv = Agg(DUR, None, d, None)
    if neg: return err(m, rt, Agg('std::time::SystemTimeError', None, (dv,), targs(m, rt)[1]))
    return ok(m, rt, dv)
@model('std::time::SystemTimeError::duration')
def _(m, st, c, v, at, rt): return agg(m, st, loadv1(m, st, v[0])).f[0]
def st_shift(m, st, a, d, add):
    s = a[0] + d[0] if add else a[0] - d[0]; n = a[1] + d[1] if add else a[1] - d[1]
    if add:
        if decided(m, st, ge0(n + (-10 ** 9))): s, n = s + 1, n + (-10 ** 9)
    elif not decided(m, st, ge0(n)): s, n = s + (-1), n + 10 ** 9
    good = b_and(ge0(s + (1 << 63)), ge0(-s + ((1 << 63) - 1)))
    return (s, n) if decided(m, st, good) else None
@model('std::time::SystemTime::checked_add', 'std::time::SystemTime::checked_sub')
def _(m, st, c, v, at, rt):
    r = st_shift(m, st, st_of(m, st, v[0]), agg(m, st, v[1]).f, c.get('rpath', c['path']).endswith('add'))
    return none(m, rt) if r is None else some(m, rt, Agg(ST, None, r, targs(m, rt)[0]))
def st_op(add):
    def f(m, st, c, v, at, rt):
        r = st_shift(m, st, st_of(m, st, v[0]), agg(m, st, v[1]).f, add)
        if r is None: panic(st, 'time out of range')
        return Agg(ST, None, r, rt)
    return f
MS[('core::ops::arith::Add::add', ST)] = st_op(True); MS[('core::ops::arith::Sub::sub', ST)] = st_op(False)

# ---------------------------------------------------------------- allocation, layout, intrinsics
@model('core::intrinsics::size_of_val', 'core::mem::size_of_val')
def _(m, st, c, v, at, rt):
    t = targs_of(m, c)[0]; T = m.T
    if T[t]['k'] in ('slice', 'str'):
        _, _, _, n = slice_parts(m, st, v[0]); z = size_of(m, T[t]['elem']) if T[t]['k'] == 'slice' else ONE
        k = z.const()
        if k is not None: return n.scale(k)
        if n.const() is not None: return z.scale(n.const())
        return m.fresh('size_of_val', rt)
    if T[t]['k'] in ('dyn',): return m.fresh('size_of_val', rt)
    return size_of(m, t)
@model('core::intrinsics::size_of', 'core::mem::size_of')
def _(m, st, c, v, at, rt): return size_of(m, targs_of(m, c)[0])
def targs_of(m, c): return [x['t'] for x in (c.get('rargs') or c['args']) if 't' in x] or [x['t'] for x in c['args'] if 't' in x]
def size_of(m, ty):
    t = m.T[ty]
    if t['k'] == 'int': return Lin(t['bits'] // 8)
    if t['k'] == 'bool': return ONE
    if t['k'] == 'char': return Lin(4)
    if t['k'] == 'float': return Lin({'f16': 2, 'f32': 4, 'f64': 8, 'f128': 16}[t['s']])
    return L(app('size_of', t['s'], lo=0, hi=U63))
@model('core::intrinsics::align_of', 'core::mem::align_of', 'core::intrinsics::min_align_of')
def _(m, st, c, v, at, rt): return align_of(m, targs_of(m, c)[0])
@model('core::intrinsics::assert_inhabited', 'core::intrinsics::assert_zero_valid', 'core::intrinsics::assert_mem_uninitialized_valid', 'core::hint::assert_unchecked', 'core::intrinsics::cold_path')
def _(m, st, c, v, at, rt): return UNIT
@model('core::intrinsics::ub_checks', 'core::intrinsics::is_val_statically_known', 'core::intrinsics::const_eval_select')
def _(m, st, c, v, at, rt):
    if 'const_eval_select' in c['path']: raise Unsupported('const_eval_select')
    return FALSE
@model('core::intrinsics::unreachable', 'core::hint::unreachable_unchecked')
def _(m, st, c, v, at, rt):
    # reached: either statically dead (no inhabitant) or undefined behaviour
    m.add_obl(st, 'code declared unreachable is unreachable', 'fail' if not st.notes else 'undecided', 'reached under ' + m.facts_str(st))
    raise Done('stop')
@model('core::alloc::layout::Layout::array')
def _(m, st, c, v, at, rt):
    t = targs_of(m, c)[0]; n = v[0]
    sz = size_of(m, t)
    size = interp.mul(sz, n)
    if not st.add_fact(size): pass
    b = Bn(('atom', app('layout_fits', m.T.s(t), n)))
    # no more elements than an array type that occurs in the program has
    if any(a.key[0] == 'sym' and str(a.key[1]).startswith('const ') and not a.unk and st.ent(L(a) - n) for a in atoms_in(st) | {x for x, _ in n.t}): pass
    elif not decided(m, st, b): return err(m, rt, m.fresh('LayoutError', targs(m, rt)[1]))
    return ok(m, rt, layout(m, st, size, n, t, targs(m, rt)[0]))
def align_of(m, t):
    if m.T.s(t) in ('u8', 'i8', 'bool'): return ONE
    return L(app('align_of', m.T.s(t), lo=1, hi=1 << 29))
def layout(m, st, size, n, t, ty, align=None):
    st.ghost['@layouts'] = st.ghost.get('@layouts', ()) + ((size, n, t),)
    return Agg('@layout', None, (size, n, Agg('@ty', None, (), t), align if align is not None else align_of(m, t)), ty)
@model('core::alloc::layout::Layout::new')
def _(m, st, c, v, at, rt): 
    t = targs_of(m, c)[0]
    if m.T[t]['k'] == 'array': e = m.T[t]['elem']; n = m.T.const(m.T[t]['len']); return layout(m, st, interp.mul(size_of(m, e), n), n, e, rt)
    return layout(m, st, size_of(m, t), ONE, t, rt)
@model('core::alloc::layout::Layout::align')
def _(m, st, c, v, at, rt): return agg(m, st, loadv1(m, st, v[0])).f[3]
@model('core::alloc::layout::Layout::from_size_align_unchecked')
def _(m, st, c, v, at, rt):
    # the same room as that of a layout that is known, for the same elements
    for size, n, t in st.ghost.get('@layouts', ()):
        if st.ent_eq(size, v[0]): return layout(m, st, size, n, t, rt, v[1])
    raise Unsupported('a layout of its own')
def given_back(m, st, p, n):
    """what was allocated by hand is given to a box or vector that will free it"""
    h = st.ghost.get('@heap:%s' % (p.cell,))
    if h is None: return
    size, cap, align, want = h
    m.obligation(st, 'memory is given back as it was taken', [eq0(align - want)] + ([eq0(n - cap)] if n is not None else []))
@model('alloc::vec::Vec::from_raw_parts')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0])
    if not (p.proj and p.proj[-1] == ('idx', ZERO)): raise Unsupported('Vec::from_raw_parts of ' + show(p))
    s = seq_of(m, st, p.cell, p.proj[:-1]); given_back(m, st, p, v[2])
    if not st.ent_eq(s.len, v[2]): raise Unsupported('a vector of a part of its memory')
    m.obligation(st, 'a vector is not made longer than its allocation', [ge0(v[2] - v[1])])
    m.check_init(st, s, ZERO, v[1], 'all elements of a vector are initialised')
    return Agg(VEC, None, (Ptr(p.cell, p.proj), v[1]), rt)
def atoms_in(st):
    out = set()
    for l in st.facts: out |= {a for a, _ in l.t}
    return out
@model('core::alloc::layout::Layout::size')
def _(m, st, c, v, at, rt): return agg(m, st, loadv1(m, st, v[0])).f[0]
@model('alloc::alloc::alloc', 'alloc::alloc::alloc_zeroed')
def _(m, st, c, v, at, rt):
    g = agg(m, st, v[0])
    if g.path != '@layout': raise Unsupported('alloc')
    m.obligation(st, 'an allocation is not zero-sized', [ge0(g.f[0] + (-1))]); allocated(m, st, g.f[1])
    cc = m.new_cell(st, Seq(g.f[1], g.f[2].ty, ('uninit',)))
    st.ghost['@heap:%s' % (cc,)] = (g.f[0], g.f[1], g.f[3], align_of(m, g.f[2].ty))
    return Ptr(cc, (('idx', ZERO),), None, rt)
@model('core::ptr::non_null::NonNull::dangling', 'core::ptr::dangling', 'core::ptr::dangling_mut')
def _(m, st, c, v, at, rt):
    ety = targs(m, rt)[0] if m.T[rt]['k'] == 'adt' else m.T[rt]['to']
    # a dangling pointer stands for any number of zero-sized elements, but for none of any other size
    sz = size_of(m, ety); n = Lin(0)
    if decided(m, st, eq0(sz)): n = Lin(1 << WORD)
    else:
        for a in atoms_in(st):
            if a.key[0] == 'app' and a.key[1] == 'mul' and st.ent_eq(L(a), ZERO):
                fs = [L(f) for f in a.key[2] if not st.ent(L(f) + (-1))]
                if not fs or len(fs) == 1 and not st.assume(eq0(fs[0])): raise Done('stop')
    cc = m.new_cell(st, Seq(n, ety, ('uninit',)))
    p = Ptr(cc, (('idx', ZERO),))
    return Agg('core::ptr::non_null::NonNull', None, (p,), rt) if m.T[rt]['k'] == 'adt' else p
@model('core::ptr::non_null::NonNull::as_ptr')
def _(m, st, c, v, at, rt): p = deref(m, st, v[0]); return Ptr(p.cell, p.proj, p.meta, rt)
@model('core::ptr::null', 'core::ptr::null_mut')
def _(m, st, c, v, at, rt): return app('null', ty=rt)
@smodel('core::clone::Clone::clone', RC, ARC)
def _(m, st, c, v, at, rt):
    g = agg(m, st, m.load(st, deref_once(m, st, v[0]))); return counted(st, Agg(g.path, None, g.f, rt))
@model(RC + '::downgrade', ARC + '::downgrade')
def _(m, st, c, v, at, rt):
    g = agg(m, st, m.load(st, deref_once(m, st, v[0]))); return counted(st, Agg(m.T[rt]['path'], None, g.f[:1], rt))
@model(RC + '::strong_count', RC + '::weak_count', ARC + '::strong_count', ARC + '::weak_count')
def _(m, st, c, v, at, rt):
    g = agg(m, st, m.load(st, deref_once(m, st, v[0]))); w = c['name']
    return L(app(w, g.f[0], len(st.ghost.get('@held', ())), ty=rt, lo=int(w == 'strong_count'), hi=U63))
@model('core::mem::forget', 'core::mem::drop')
def _(m, st, c, v, at, rt):
    if c.get('rpath', c['path']).endswith('drop'): m.drop_value(st, v[0], at[0])
    return UNIT
@model('core::mem::swap', 'core::intrinsics::typed_swap_nonoverlapping')
def _(m, st, c, v, at, rt):
    a, b = deref_once(m, st, v[0]), deref_once(m, st, v[1]); x, y = m.load(st, a), m.load(st, b); m.store(st, a, y); m.store(st, b, x); return UNIT
@model('core::mem::replace')
def _(m, st, c, v, at, rt):
    a = deref_once(m, st, v[0]); x = m.load(st, a); m.store(st, a, v[1]); return x
@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::Arguments::new', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1', 'core::fmt::rt::Argument::new_lower_hex')
def _(m, st, c, v, at, rt): return app('fmt', ty=rt)
@model('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def _(m, st, c, v, at, rt): return v[0]
@model('core::ptr::drop_glue', 'core::ptr::drop_in_place')
def _(m, st, c, v, at, rt):
    p = deref(m, st, v[0])
    if p.meta is not None:
        cell, proj, lo, n = slice_parts(m, st, p); s = seq_of(m, st, cell, proj); ety = m.T[m.T.peel(m.T[at[0]]['to'])]['elem']
        if m.T[ety].get('nd') is not False:
            m.check_init(st, s, lo, lo + n, 'only live values are dropped')
            st.emit('drops', ('ds', s, lo, n, m.T.s(ety)))
        return UNIT
    x = m.load(st, p)
    to = m.T[at[0]].get('to')
    if isinstance(x, Uninit):
        m.add_obl(st, 'only live values are dropped', 'fail' if not st.notes else 'undecided', 'drop of uninitialised %s' % show(p)); return UNIT
    m.drop_value(st, x, to)
    m.store(st, p, UNINIT)
    return UNIT
@unres('core::error::Error::source')
def _(m, st, c, v, at, rt): return m.mkv('source', loadv1(m, st, v[0]), ty=rt)
@unres('core::default::Default::default')
def _(m, st, c, v, at, rt): return m.mkv('default', m.T.s(rt), ty=rt)
@unres('core::convert::Into::into', 'core::convert::From::from')
def _(m, st, c, v, at, rt):
    if at and m.T.s(at[0]) == m.T.s(rt): return v[0]
    return m.mkv('into', v[0], m.T.s(rt), ty=rt)
@unres('core::clone::Clone::clone')
def _(m, st, c, v, at, rt):
    x = loadv1(m, st, v[0])
    st.emit('clones', ('dv', x, m.T.s(rt)))
    return x
@smodel('core::clone::Clone::clone', VEC, STRING, CSTRING)
def _(m, st, c, v, at, rt):
    p, g = at_self(m, st, v[0], VEC); cell, proj, n = vec_parts(m, st, g)
    s = seq_of(m, st, cell, proj); allocated(m, st, n)
    q = Ptr(m.new_cell(st, subseq(m, st, s, ZERO, n)), (('idx', ZERO),))
    h = head(m, rt)
    x = Agg(VEC, None, (q, n), rt if h == VEC else None)
    return x if h == VEC else Agg(h, None, (x,), rt)
@smodel('core::clone::Clone::clone', 'ref', 'ptr', 'int', 'bool', 'char', 'float')
def _(m, st, c, v, at, rt): return loadv1(m, st, v[0])
@model('prim::char::encode_utf8')
def _(m, st, c, v, at, rt):
    x = v[0]; n = char_len(m, st, x)
    cell, proj, lo, k = slice_parts(m, st, v[1])
    if not decided(m, st, ge0(k - n)): panic(st, 'encode_utf8: the buffer is too small')
    u8 = m.T.prim('u8')
    bs = [x] if n.c == 1 else [L(app('utf8', x, Lin(i), ty=u8, lo=0, hi=255)) for i in range(n.c)]
    for i, b in enumerate(bs): m.store(st, Ptr(cell, proj + (('idx', lo + i),)), b)
    r = mkslice(cell, proj, lo, n, rt)
    know_utf8(m, st, seq_of(m, st, cell, proj), lo, n)
    return r
@unres('core::iter::traits::iterator::Iterator::next')
def _(m, st, c, v, at, rt):
    """an arbitrary iterator: yields an arbitrary item or ends; an iterator that has ended may go on"""
    x = m.fresh('next', rt)
    st.emit('items', x)
    return x

# ---------------------------------------------------------------- encoding and decoding through abstract element types
streams.install(M, MS, UNRES, globals())
import own

# ---------------------------------------------------------------- comparison of slices
@model('prim::str::get', 'prim::str::get_mut')
def _(m, st, c, v, at, rt): return str_sub(m, st, v[0], v[1], at[1], rt, 'get')
@model('prim::str::get_unchecked', 'prim::str::get_unchecked_mut')
def _(m, st, c, v, at, rt): return str_sub(m, st, v[0], v[1], at[1], rt, 'unchecked')
@smodel('core::ops::index::Index::index', 'str')
@smodel('core::ops::index::IndexMut::index_mut', 'str')
def _(m, st, c, v, at, rt): return str_sub(m, st, v[0], v[1], at[1], rt, 'index')
@model('prim::str::bytes')
def _(m, st, c, v, at, rt):
    cell, proj, lo, n = slice_parts(m, st, v[0])
    return Agg(m.T[rt]['path'], None, (Agg('core::iter::adapters::copied::Copied', None, (Agg('@sliceiter', None, (Ptr(cell, proj + (('idx', lo),)), ZERO, n)),)),), rt)
@model('prim::str::chars', 'prim::str::char_indices', 'prim::str::lines', 'prim::str::split_whitespace')
def _(m, st, c, v, at, rt): return Agg(m.T[rt]['path'], None, (v[0], ZERO), rt)
@model('core::str::iter::Chars::as_str', 'core::str::iter::CharIndices::as_str')
def _(m, st, c, v, at, rt):
    g = m.load(st, deref(m, st, v[0]))
    if isinstance(g, Agg) and len(g.f) == 2 and isinstance(g.f[0], Ptr): return g.f[0]
    raise Unsupported('characters of ' + show(g))
@model('core::str::iter::CharIndices::offset')
def _(m, st, c, v, at, rt):
    g = m.load(st, deref(m, st, v[0]))
    if isinstance(g, Agg) and len(g.f) == 2: return g.f[1]
    raise Unsupported('characters of ' + show(g))
@smodel('std::net::socket_addr::ToSocketAddrs::to_socket_addrs', 'str')
def _(m, st, c, v, at, rt):
    s = slice_value(m, st, v[0]); x = canon(m, st, s)
    for w in st.ghost.get('@sock', ()):
        if w is x or st.cong(w, x): x = w; break
    else: st.ghost['@sock'] = st.ghost.get('@sock', ()) + (x,)
    return m.mkv('socket_addrs', x, ty=rt)
def canon(m, st, s):
    """the same elements -> the same term, whatever they are viewed through"""
    lo = ZERO; n = s.len
    for _ in range(8):
        if len(s.layers) == 1 and s.layers[0][2] == 'copy' and st.ent(lo - s.layers[0][0]) and st.ent(s.layers[0][1] - lo - n):
            l = s.layers[0]; lo = lo - l[0] + l[3][1]; s = l[3][0]; continue
        break
    if not s.layers and s.base[0] in ('sym', 'prefix', 'window'): return app('sl', s.base[1], lo, n)
    if not s.layers and s.base[0] == 'vals' and n.const() is not None and lo.const() is not None: return app('sv', tuple(s.base[1][lo.c:lo.c + n.c]))
    return app('sq', s, lo, n)
def raw_slice(m, st, p, n):
    p = deref(m, st, p)
    cell, proj, lo, _ = slice_parts(m, st, p) if p.meta is not None else ((p.cell, p.proj[:-1], p.proj[-1][1], None) if p.proj and p.proj[-1][0] == 'idx' else (p.cell, p.proj, ZERO, None))
    return subseq(m, st, seq_of(m, st, cell, proj), lo, n)
INTS = ('int', 'char', 'bool')
def slice_rel(m, st, rel, sa, sb, x, y, sym, a=None, b=None):
    """the atom standing for a relation between two slices; congruent arguments meet the same atom -> (atom, crossed)"""
    for r, p, q, f, u, w, _, _ in st.ghost.get('@slrel', ()):
        if r != rel: continue
        if p == sa and q == sb and (u is x or st.cong(u, x)) and (w is y or st.cong(w, y)): return f, False
        if sym and p == sb and q == sa and (u is y or st.cong(u, y)) and (w is x or st.cong(w, x)): return f, True
    f = app(rel, sa, sb, x, y)
    st.ghost['@slrel'] = st.ghost.get('@slrel', ()) + ((rel, sa, sb, f, x, y, a, b),)
    return f, False
def slices_equal(m, st, a, b):
    """-> Bn"""
    if a.ety is None or b.ety is None: raise Unsupported('comparison of untyped memory')
    ea, eb = m.T.peel(a.ety), m.T.peel(b.ety)
    ka, kb = m.T[ea]['k'], m.T[eb]['k']; ints = ka in INTS and kb in INTS
    n = a.len.const() if a.len.const() is not None else st.pin(a.len)
    if ints and n is not None and n <= 8:
        for j in range(n):
            x, y = m.seq_read(st, a, Lin(j)), m.seq_read(st, b, Lin(j))
            e = eq0(x - y) if isinstance(x, Lin) and isinstance(y, Lin) else None
            if e is None: break
            if not decided(m, st, e): return FALSE
        else: return TRUE
    x, y = canon(m, st, a), canon(m, st, b)
    if ints and (x is y or st.cong(x, y)) or n == 0: return TRUE
    f, _ = slice_rel(m, st, 'sleq', m.T.s(ea), m.T.s(eb), x, y, ints, a, b)
    return Bn(('atom', f))
def elements_equal(m, st, ea, eb, x, y):
    """-> the atom standing for x == y, for elements of types with an equality of their own"""
    return slice_rel(m, st, 'eleq', m.T.s(ea), m.T.s(eb), x, y, False)[0]
def known(m, st, rel, a, b, j, new=False):
    """what the path knows of a relation between the elements of index j; new: by what it knows of all elements"""
    x, y = m.seq_read(st, a, j), m.seq_read(st, b, j)
    if isinstance(x, Lin) and isinstance(y, Lin):
        e = st.decide(eq0(x - y))
        if rel in ('eleq', 'elpequal'): return e
        if rel == 'elincomparable': return False
        return e is False and st.decide(ge0(y - x + (-1))) if e is not None else None
    if isinstance(x, Uninit) or isinstance(y, Uninit): return None
    sa, sb = m.T.s(m.T.peel(a.ety)), m.T.s(m.T.peel(b.ety))
    for r, p, q, f, u, w, _, _ in st.ghost.get('@slrel', ()):
        if r != rel: continue
        if p == sa and q == sb and (u is x or st.cong(u, x)) and (w is y or st.cong(w, y)): return st.decide(('atom', f))
        if rel != 'eleq' and p == sb and q == sa and (u is y or st.cong(u, y)) and (w is x or st.cong(w, x)):
            d = st.decide(('atom', f)); return d if d is None or not rel.endswith('less') else not d
    if not new: return None
    f, crossed = slice_rel(m, st, rel, sa, sb, x, y, rel != 'eleq')
    d = st.decide(('atom', f)); return d if d is None or not (crossed and rel.endswith('less')) else not d
def all_equal(m, st, rel, a, b, n):
    """whether the first n elements are known to be equal, each by itself"""
    k = n.const() if n.const() is not None else st.pin(n)
    if k is not None and k <= 16: return all(known(m, st, rel, a, b, Lin(i)) is True for i in range(k)) or k > 0 and any_equal(m, st, rel, a, b, n)
    return any_equal(m, st, rel, a, b, n)
def any_equal(m, st, rel, a, b, n):
    if '@univ' not in st.ghost: return False
    st = st.clone(); i = L(sym('some index', None, 0, U63))
    return bool(st.add_fact(n - i + (-1))) and known(m, st, rel, a, b, i, True) is True
def differ_at(m, st, rel, a, b):
    """the indices at which the elements are known not to be equal"""
    for j in range(16):
        if st.decide(ge0(a.len - Lin(j + 1))) is not True or st.decide(ge0(b.len - Lin(j + 1))) is not True: break
        if known(m, st, rel, a, b, Lin(j)) is False: yield Lin(j)
    idx = []
    def look(t):
        for x in atoms_of(t):
            if x.key[0] == 'app' and x.key[1] == 'elem' and isinstance(x.key[3], Lin) and x.key[3].const() is None and x.key[3] not in idx: idx.append(x.key[3])
    for r in st.ghost.get('@slrel', ()):
        if r[0] == rel:
            for x in (r[4], r[5]):
                if isinstance(x, (A, Lin)): look(x)
    for f in st.nes: look(f)
    for f in st.facts:
        for x, _ in f.t:
            if x.key[:2] == ('app', 'it') and L(x) not in idx: idx.append(L(x))
    for e in idx[:16]:
        if st.decide(ge0(e)) is True and st.decide(ge0(a.len - e + (-1))) is True and st.decide(ge0(b.len - e + (-1))) is True and known(m, st, rel, a, b, e, True) is False: yield e
@unres('core::cmp::PartialEq::eq')
def _(m, st, c, v, at, rt):
    ta, tb = m.T[at[0]]['to'], m.T[at[1]]['to']
    x, y = m.load(st, deref(m, st, v[0])), m.load(st, deref(m, st, v[1]))
    if isinstance(x, Uninit) or isinstance(y, Uninit): raise Unsupported('comparison of uninitialised memory')
    return Bn(('atom', elements_equal(m, st, m.T.peel(ta), m.T.peel(tb), x, y)))
@model('core::slice::cmp::SlicePartialEq::equal_same_length')
def _(m, st, c, v, at, rt):
    return slices_equal(m, st, raw_slice(m, st, v[0], v[2]), raw_slice(m, st, v[1], v[2]))
def consistent(m, st):
    """False when what the path knows of single elements contradicts what it assumed of whole slices"""
    rels = [r for r in st.ghost.get('@slrel', ()) if r[6] is not None]
    if not rels: return True
    st = st.clone()
    for rel, _, _, f, _, _, a, b in rels:
        d = st.decide(('atom', f))
        if d is None: continue
        try:
            eq = 'eleq' if rel in ('sleq', 'slless') else 'elpequal'
            if rel in ('sleq', 'slpequal'):
                if d and any(True for _ in differ_at(m, st, eq, a, b)): return False
                if not d and all_equal(m, st, eq, a, b, a.len): return False
                continue
            less = {'slless': 'elless', 'slpless': 'elpless', 'slincomparable': 'elincomparable'}[rel]
            for e in differ_at(m, st, eq, a, b):
                if e != ZERO and not all_equal(m, st, eq, a, b, e): continue
                k = known(m, st, less, a, b, e, True)
                if k is not None and k is not d: return False
                break
        except (Fork, Unsupported, Done): continue
    return True
def cut(m, st, a, b, same_len):
    """two slices up to the length of the shorter one, and how their lengths compare"""
    if same_len: return a, b, 0
    less = decided(m, st, ge0(b.len - a.len + (-1))); n = a.len if less else b.len
    return (a if less else subseq(m, st, a, ZERO, n)), (subseq(m, st, b, ZERO, n) if less else b), -1 if less else 1
def empty(st, a): return (a.len.const() if a.len.const() is not None else st.pin(a.len)) == 0
def slices_order(m, st, a, b):
    """-1, 0, 1: a total order that agrees with equality (elements with a total order of their own)"""
    same_len = decided(m, st, eq0(a.len - b.len))
    a, b, rest = cut(m, st, a, b, same_len)
    if decided(m, st, slices_equal(m, st, a, b)): return rest
    n = a.len.const() if a.len.const() is not None else st.pin(a.len)
    ea, eb = m.T.peel(a.ety), m.T.peel(b.ety)
    if n == 1 and m.T[ea]['k'] in INTS:
        x, y = m.seq_read(st, a, ZERO), m.seq_read(st, b, ZERO)
        if isinstance(x, Lin) and isinstance(y, Lin): return -1 if decided(m, st, ge0(y - x + (-1))) else 1
    f, crossed = slice_rel(m, st, 'slless', m.T.s(ea), m.T.s(eb), canon(m, st, a), canon(m, st, b), True, a, b)
    return -1 if decided(m, st, Bn(('atom', f))) != crossed else 1
def slices_porder(m, st, a, b):
    """None, -1, 0, 1: a partial order (elements with a partial order of their own, which need not agree with equality)"""
    if m.T[m.T.peel(a.ety)]['k'] in INTS: return slices_order(m, st, a, b)
    a, b, rest = cut(m, st, a, b, decided(m, st, eq0(a.len - b.len)))
    if empty(st, a): return rest
    sa, sb = m.T.s(m.T.peel(a.ety)), m.T.s(m.T.peel(b.ety)); x, y = canon(m, st, a), canon(m, st, b)
    return porder(m, st, 'sl', sa, sb, x, y, a, b, rest)
def porder(m, st, k, sa, sb, x, y, a, b, rest):
    f, _ = slice_rel(m, st, k + 'pequal', sa, sb, x, y, True, a, b)
    if decided(m, st, Bn(('atom', f))): return rest
    f, _ = slice_rel(m, st, k + 'incomparable', sa, sb, x, y, True, a, b)
    if decided(m, st, Bn(('atom', f))): return None
    f, crossed = slice_rel(m, st, k + 'pless', sa, sb, x, y, True, a, b)
    return -1 if decided(m, st, Bn(('atom', f))) != crossed else 1
def elements_order(m, st, c, v, at, partial):
    ta, tb = m.T[at[0]]['to'], m.T[at[1]]['to']
    x, y = m.load(st, deref(m, st, v[0])), m.load(st, deref(m, st, v[1]))
    if isinstance(x, Uninit) or isinstance(y, Uninit): raise Unsupported('comparison of uninitialised memory')
    ea, eb = m.T.peel(ta), m.T.peel(tb)
    if partial: return porder(m, st, 'el', m.T.s(ea), m.T.s(eb), x, y, None, None, 0)
    if decided(m, st, Bn(('atom', elements_equal(m, st, ea, eb, x, y)))): return 0
    f, crossed = slice_rel(m, st, 'elless', m.T.s(ea), m.T.s(eb), x, y, True)
    return -1 if decided(m, st, Bn(('atom', f))) != crossed else 1
@unres('core::cmp::Ord::cmp')
def _(m, st, c, v, at, rt): return Agg('core::cmp::Ordering', elements_order(m, st, c, v, at, False) + 1, (), rt)
@unres('core::cmp::PartialOrd::partial_cmp')
def _(m, st, c, v, at, rt):
    o = elements_order(m, st, c, v, at, True)
    return none(m, rt) if o is None else some(m, rt, Agg('core::cmp::Ordering', o + 1, (), arg0(m, rt)))
@unres('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _(m, st, c, v, at, rt):
    return TRUE if elements_order(m, st, c, v, at, True) in {'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1)}[c['name']] else FALSE
@model('core::intrinsics::compare_bytes')
def _(m, st, c, v, at, rt):
    return Lin(slices_order(m, st, raw_slice(m, st, v[0], v[2]), raw_slice(m, st, v[1], v[2])))
@model('core::slice::cmp::SliceOrd::compare')
def _(m, st, c, v, at, rt):
    a, b = slice_value(m, st, v[0]), slice_value(m, st, v[1])
    return Agg('core::cmp::Ordering', slices_order(m, st, a, b) + 1, (), rt)
@model('core::slice::cmp::SlicePartialOrd::partial_compare')
def _(m, st, c, v, at, rt):
    a, b = slice_value(m, st, v[0]), slice_value(m, st, v[1])
    o = slices_porder(m, st, a, b)
    return none(m, rt) if o is None else some(m, rt, Agg('core::cmp::Ordering', o + 1, (), arg0(m, rt)))
# ---------------------------------------------------------------- hashing: the state of the hasher is a term over what it was fed
@model('core::hash::Hash::hash')
def _(m, st, c, v, at, rt):
    to = m.T[at[0]]['to']; k = m.T[m.T.peel(to)]['k']
    if c['k'] == 'item' and c.get('body') is not None: return ('@call', c['body'], v, None)
    if k in ('slice', 'str', 'array'):
        s = slice_value(m, st, v[0]); x = canon(m, st, s); kind = (k, m.T.s(m.T.peel(s.ety)))
        for q, w in st.ghost.get('@hashed', ()):
            if q == kind and (w is x or st.cong(w, x)): x = w; break
        else:
            n = s.len.const() if s.len.const() is not None else st.pin(s.len)
            if n is not None and n <= 8 and m.T[m.T.peel(s.ety)]['k'] in INTS: x = app('sv', tuple(m.seq_read(st, s, Lin(j)) for j in range(n)))
            st.ghost['@hashed'] = st.ghost.get('@hashed', ()) + ((kind, x),)
    else:
        x = m.load(st, deref_once(m, st, v[0])); kind = m.T.s(to)
        if isinstance(x, Uninit): m.add_obl(st, 'only initialised memory is read', 'fail' if not st.notes else 'undecided', 'hash'); raise Done('stop')
    p = deref_once(m, st, v[1]); h = m.load(st, p)
    m.store(st, p, m.mkv('hashed', h, kind, x, ty=m.T[at[1]]['to']))
    return UNIT
@model('core::hash::Hasher::finish')
def _(m, st, c, v, at, rt):
    if c['k'] == 'item' and c.get('body') is not None: return ('@call', c['body'], v, None)
    return m.mkv('finish', loadv1(m, st, v[0]), ty=rt)
@model('core::ptr::eq', 'core::ptr::addr_eq')
def _(m, st, c, v, at, rt):
    p, q = deref(m, st, v[0]), deref(m, st, v[1])
    if p.cell != q.cell:
        if isinstance(p.cell, tuple) or isinstance(q.cell, tuple): return m.fresh('ptreq', rt, unk=True)
        return FALSE
    if p.proj == q.proj and p.meta == q.meta: return TRUE
    if len(p.proj) == len(q.proj) and p.proj[:-1] == q.proj[:-1] and p.proj and p.proj[-1][0] == q.proj[-1][0] == 'idx':
        e = eq0(p.proj[-1][1] - q.proj[-1][1])
        if p.meta is not None and q.meta is not None: e = b_and(e, eq0(p.meta - q.meta))
        return Bn(e)
    return m.fresh('ptreq', rt, unk=True)
streams.G.update(globals())
own.install(M, globals())
import fmts, facts as _facts
REPO = _facts.REPO
fmts.install(M, MS, UNRES, globals())
