"""Streams as the contracts see them: recordings (what was written), replays and arbitrary inputs."""
from terms import *
from interp import Fork, Done, Unsupported

G = {}

def index_atom(m, st, a, b): return app('k', a, b, lo=0, hi=U63)

def skey(m, st, p):
    """stream key of the object behind p, or None if it is an ordinary value"""
    if isinstance(p, A) and p.ty is not None: p = m.val_of(p, p.ty)
    if not isinstance(p, Ptr): return None
    v = m.load(st, p)
    if isinstance(v, Agg) and v.path[0] == '@' and v.path[1:4] in ('rec', 'inp'): return v.path
    return None

def open_loop(n, j, evs, e): return [tuple_subst(x, {j: e}) for x in evs]
def tuple_subst(ev, mp):
    if not isinstance(ev, tuple): return subst(ev, mp)
    if ev[0] == 'loop':
        return ('loop', subst(ev[1], mp), ev[2], tuple(tuple_subst(x, mp) for x in ev[3]))
    if ev[0] == 'at': return ('at', subst(ev[1], mp), ev[2], tuple(tuple_subst(x, mp) for x in ev[3]), subst(ev[4], mp))
    return tuple(x if isinstance(x, str) else subst(x, mp) for x in ev)

def norm_head(m, st, lst):
    """drop finished entries, open loops, until the head is a plain event (or the list is empty)"""
    lst = list(lst)
    while lst:
        h = lst[0]
        if h[0] == 'loop': lst[0] = h = ('at', h[1], h[2], h[3], ZERO)
        if h[0] == 'at':
            c = ge0(h[1] - h[4] + (-1)); d = st.decide(c)
            if d is None: raise Fork([c, b_not(c)])
            if d: lst[0:1] = open_loop(h[1], h[2], h[3], h[4]) + [('at', h[1], h[2], h[3], h[4] + 1)]
            else: lst.pop(0)
            continue
        if h[0] == 'bs':
            c = ge0(h[3] + (-1)); d = st.decide(c)
            if d is None: raise Fork([c, b_not(c)])
            if not d: lst.pop(0); continue
        return lst
    return lst
def drop_done(m, st, lst):
    lst = list(lst)
    if 'lost' in lst: raise Unsupported('a stream that a loop summary gave up')
    while lst:
        h = lst[0]
        if h[0] == 'at' and st.ent(h[4] - h[1]): lst.pop(0); continue
        if h[0] == 'loop' and st.ent(-h[1]): lst.pop(0); continue
        if h[0] == 'bs' and st.ent(-h[3]): lst.pop(0); continue
        break
    return tuple(lst)
def byte_run(m, st, lst):
    """view the head as a run of bytes: (seq, lo, n) or None"""
    h = lst[0]
    if h[0] == 'bs': return h[1], h[2], h[3]
    if h[0] == 'loop': h = ('at', h[1], h[2], h[3], ZERO)
    if h[0] == 'at' and len(h[3]) == 1 and h[3][0][0] == 'b':
        e = h[3][0][1]; j = h[2]
        at = e.atom() if isinstance(e, Lin) else None
        if at is not None and at.key[0] == 'app' and at.key[1] == 'elem' and isinstance(at.key[3], Lin):
            off = at.key[3] - L(j)
            if j not in atoms_of(off) and j not in atoms_of(at.key[2]):
                return Seq(L(U63), m.T.prim('u8'), ('sym', at.key[2])), off + h[4], h[1] - h[4]
        return Seq(h[1], m.T.prim('u8'), ('gen', j, e)), h[4], h[1] - h[4]
    return None

def fail_stream(m, st, what, detail):
    unk = bool(st.notes)
    m.add_obl(st, what, 'undecided' if unk else 'fail', detail + ' given ' + m.facts_str(st))
    raise Done('stop')

def read_bytes(m, st, key, n):
    """consume n bytes of replay -> Seq, or None when the recording is exhausted"""
    lst = list(drop_done(m, st, st.inp[key]))
    c = st.pin(n, 3) if n.const() is None else n.const()
    if c is not None and c <= 64:
        out = []
        while len(out) < c:
            lst = norm_head(m, st, lst)
            if not lst: return None
            h = lst[0]
            if h[0] == 'b': out.append(h[1]); lst.pop(0)
            elif h[0] == 'bs':
                out.append(m.seq_read(st, h[1], h[2])); lst[0] = ('bs', h[1], h[2] + 1, h[3] + (-1))
            else: fail_stream(m, st, 'decoding reads back the pieces that encoding wrote', 'raw bytes are read where %s was written' % show_ev(h))
        st.inp[key] = drop_done(m, st, lst)
        return Seq(Lin(c), m.T.prim('u8'), ('vals', tuple(out)))
    if st.ent_eq(n, ZERO): return Seq(ZERO, m.T.prim('u8'), ('vals', ()))
    if not lst: return None
    r = byte_run(m, st, lst)
    if r is None:
        d = st.decide(eq0(n))
        if d is None: raise Fork([eq0(n), b_not(eq0(n))])
        fail_stream(m, st, 'decoding reads back the pieces that encoding wrote', '%s raw bytes are read where %s was written' % (show(n), show_ev(lst[0])))
    s, lo, k = r
    d = st.decide(ge0(k - n))
    if d is None: raise Fork([ge0(k - n), b_not(ge0(k - n))])
    if not d: raise Unsupported('read across recorded pieces')
    rest = lst[1:]
    if not st.ent_eq(k, n): rest = [('bs', s, lo + n, k - n)] + rest
    st.inp[key] = drop_done(m, st, rest)
    if st.ent_eq(lo, ZERO): return Seq(n, s.ety, s.base, s.layers, s.tag)
    return Seq(n, s.ety, ('uninit',), ((ZERO, n, 'copy', (s, lo)),))
def show_ev(e):
    if e[0] == 'enc': return 'the encoding of %s (%s)' % (show(e[2]), e[1])
    if e[0] in ('loop', 'at'): return 'a loop of %s items [%s]' % (show(e[1]), ', '.join(show_ev(x) for x in e[3]))
    if e[0] == 'bs': return '%s bytes of %s' % (show(e[3]), show(e[1]))
    return 'byte %s' % show(e[1])

def ev_size(m, st, e):
    """upper bound of the encoded size of an event"""
    import interp
    if e[0] == 'b': return ONE
    if e[0] == 'bs': return e[3]
    if e[0] == 'enc':
        a = m.mkv('const', 'oct::encode::sized_encode::SizedEncode::MAX_ENCODED_SIZE', (e[1],), ty=m.T.prim('usize'))
        return a
    if e[0] in ('loop', 'at'):
        n = e[1] if e[0] == 'loop' else e[1] - e[4]
        t = ZERO
        for x in e[3]: t = t + ev_size(m, st, x)
        return interp.mul(n, t)
    raise Unsupported('size of ' + e[0])

def to_loop(m, ev):
    """bs -> loop of bytes, for comparison"""
    if ev[0] == 'bs':
        j = fresh('j', None, 0, U63)
        return ('loopseq', ev[3], ev[1], ev[2])
    return ev
def flat(m, st, lst):
    out = []
    for e in lst:
        if e[0] == 'bs' and st.pin(e[3]) is not None and st.pin(e[3]) <= 64:
            for i in range(st.pin(e[3])): out.append(('b', m.seq_read(st, e[1], e[2] + i)))
        elif e[0] in ('loop',) and st.pin(e[1]) is not None and st.pin(e[1]) <= 16:
            for i in range(st.pin(e[1])): out.extend(flat(m, st, open_loop(e[1], e[2], e[3], Lin(i))))
        else: out.append(e)
    return out
def same_events(m, st, a, b, d=0):
    """-> (True|False|None, why)"""
    same = G['same']
    a = [e for e in flat(m, st, a) if not (e[0] in ('bs',) and st.ent(-e[3])) and not (e[0] == 'loop' and st.ent(-e[1]))]
    b = [e for e in flat(m, st, b) if not (e[0] in ('bs',) and st.ent(-e[3])) and not (e[0] == 'loop' and st.ent(-e[1]))]
    i = 0
    while i < max(len(a), len(b)):
        if i >= len(a) or i >= len(b):
            x = (a + b)[-1] if i >= min(len(a), len(b)) else None
            longer = a if len(a) > len(b) else b; e = longer[i]
            if e[0] in ('loop', 'bs'):
                n = e[1] if e[0] == 'loop' else e[3]
                dd = st.decide(eq0(n))
                if dd is None: raise Fork([eq0(n), b_not(eq0(n))])
            return False, 'one side additionally holds %s' % show_ev(e)
        x, y = a[i], b[i]
        if x[0] != y[0]:
            bx, by = byte_run(m, st, [x]), byte_run(m, st, [y])
            if bx and by: x, y = ('bs',) + bx, ('bs',) + by
            else:
                for e in (x, y):
                    if e[0] in ('loop', 'bs'):
                        n = e[1] if e[0] == 'loop' else e[3]
                        dd = st.decide(eq0(n))
                        if dd is None: raise Fork([eq0(n), b_not(eq0(n))])
                return False, '%s against %s' % (show_ev(x), show_ev(y))
        if x[0] == 'b':
            r, w = same(m, st, x[1], y[1])
        elif x[0] == 'enc':
            if x[1] != y[1]: return False, '%s against %s' % (show_ev(x), show_ev(y))
            r, w = same(m, st, x[2], y[2])
        elif x[0] == 'bs':
            r, w = same(m, st, G['subseq'](m, st, x[1], x[2], x[3]), G['subseq'](m, st, y[1], y[2], y[3]))
        else:
            if not st.ent_eq(x[1], y[1]): return (None if has_unk(x[1]) or has_unk(y[1]) else False), 'repetition %s against %s' % (show(x[1]), show(y[1]))
            k = L(app('k', x[1], y[1], d, i, lo=0, hi=U63))
            if not (st.add_fact(k) and st.add_fact(x[1] - k + (-1))): i += 1; continue
            r, w = same_events(m, st, open_loop(x[1], x[2], x[3], k), open_loop(y[1], y[2], y[3], k), d + 1)
        if r is not True: return r, 'piece %d: %s' % (i, w)
        i += 1
    return True, None

def install(M, MS, UNRES, g):
    G.update(g)
    ok, err, targs, judge, text, agg, decided, panic, deref_once, slice_parts, seq_of, same, head = (g[x] for x in ('ok', 'err', 'targs', 'judge', 'text', 'agg', 'decided', 'panic', 'deref_once', 'slice_parts', 'seq_of', 'same', 'head'))
    def model(*ps):
        def d(f):
            for p in ps: M[p] = f
            return f
        return d
    def unres(*ps):
        def d(f):
            for p in ps: UNRES[p] = f
            return f
        return d
    @model('vrt::recorder')
    def _(m, st, c, v, at, rt):
        key = '@rec:%d' % next(m.cellc); st.rec[key] = ()
        return Agg(key, None, (), rt)
    @model('vrt::replay')
    def _(m, st, c, v, at, rt):
        src = skey(m, st, v[0]); key = '@inp:%d' % next(m.cellc)
        st.inp[key] = drop_done(m, st, tuple(('at', e[1], e[2], e[3], ZERO) if e[0] == 'loop' else e for e in st.rec[src]))
        return Agg(key, None, (), rt)
    @model('vrt::any_input')
    def _(m, st, c, v, at, rt):
        key = '@inp:%d' % next(m.cellc); st.inp[key] = ('free', ZERO, key)
        return Agg(key, None, (), rt)
    @model('vrt::same_input')
    def _(m, st, c, v, at, rt):
        key = '@inp:%d' % next(m.cellc); st.inp[key] = st.inp[skey(m, st, v[0])]
        return Agg(key, None, (), rt)
    @model('vrt::exhausted')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[0]); lst = drop_done(m, st, st.inp[key])
        lst = norm_head(m, st, lst)
        judge(m, st, text(m, st, v[1]), not lst, None if not lst else 'left over: ' + '; '.join(show_ev(e) for e in lst[:3]))
        return UNIT
    @model('vrt::must_suffice')
    def _(m, st, c, v, at, rt): st.ghost['@suffices'] = True; return UNIT
    @model('vrt::same_position')
    def _(m, st, c, v, at, rt):
        a, b = st.inp[skey(m, st, v[0])], st.inp[skey(m, st, v[1])]
        if a[0] != 'free' or b[0] != 'free' or a[2] != b[2]: raise Unsupported('positions of different streams')
        r = st.cong(a[1], b[1])
        judge(m, st, text(m, st, v[2]), True if r else (None if has_unk(a[1]) or has_unk(b[1]) else False), 'the positions are %s and %s' % (show(a[1]), show(b[1])))
        return UNIT
    @model('vrt::same_written')
    def _(m, st, c, v, at, rt):
        a, b = skey(m, st, v[0]), skey(m, st, v[1])
        r, w = same_events(m, st, st.rec[a], st.rec[b])
        judge(m, st, text(m, st, v[2]), r, w)
        return UNIT
    @model('vrt::size_at_most')
    def _(m, st, c, v, at, rt):
        a = skey(m, st, v[0]); t = ZERO
        for e in st.rec[a]: t = t + ev_size(m, st, e)
        products(st, t - v[1])
        m.obligation(st, text(m, st, v[2]), [ge0(v[1] - t)], 'written at most %s, allowed %s' % (show(t), show(v[1])))
        return UNIT
    def products(st, l):
        """n <= N and s >= 0 give n*s <= N*s for the products that occur"""
        mons = [a for a, k in l.t if a.key[0] == 'app' and a.key[1] == 'mul' and len(a.key[2]) == 2]
        single = {a for a, k in l.t}
        for b in mons:
            for y in range(2):
                s, q = b.key[2][y], b.key[2][1 - y]
                if s in single and s.lo is not None and s.lo >= 0:
                    c = 0
                    while c < 8 and st.ent(L(q) + (-c - 1)): c += 1
                    st.add_fact(L(b) - L(s).scale(c))
        for a in mons:
            for b in mons:
                if a is b: continue
                for x in range(2):
                    for y in range(2):
                        if a.key[2][x] is b.key[2][y]:
                            s, n, q = a.key[2][x], a.key[2][1 - x], b.key[2][1 - y]
                            if s.lo is not None and s.lo >= 0 and st.ent(L(q) - L(n)): st.add_fact(L(b) - L(a))

    @model('oct::encode::output::Output::write')
    def out_write(m, st, c, v, at, rt):
        key = skey(m, st, v[0])
        if key is None: return body_call(m, c, v)
        cell, proj, lo, n = slice_parts(m, st, v[1])
        s = seq_of(m, st, cell, proj)
        k = st.pin(n, 3) if n.const() is None else n.const()
        if k is not None and k <= 64:
            for i in range(k):
                b = m.seq_read(st, s, lo + i)
                if isinstance(b, Uninit): m.add_obl(st, 'only initialised bytes are written', 'fail' if not st.notes else 'undecided', 'byte %d of %s' % (i, show(s)))
                st.emit(key, ('b', b))
        else:
            m.check_init(st, s, lo, lo + n, 'only initialised bytes are written')
            st.emit(key, ('bs', s, lo, n))
        return ok(m, rt, UNIT)
    def body_call(m, c, v):
        if c.get('body') is None: raise Unsupported('no body for ' + c['path'])
        return ('@call', c['body'], v, None)
    def total(root): return L(app('total', root, lo=0, hi=U63))
    def input_err(m, st, key, n, rt):
        st.ghost['ran_out'] = True
        return err(m, rt, m.fresh('InputError', targs(m, rt)[1]))
    def take(m, st, key, n):
        """n bytes of the stream -> Seq or None"""
        cur = st.inp[key]
        if cur and cur[0] == 'free':
            pos, root = cur[1], cur[2]
            if st.ghost.get('@suffices'):
                if not st.assume(ge0(total(root) - pos - n)): raise Done('unreach')
            if not decided(m, st, ge0(total(root) - pos - n)): return None
            st.inp[key] = ('free', pos + n, root)
            k = n.const()
            if k is not None and k <= 64:
                return Seq(n, m.T.prim('u8'), ('vals', tuple(L(m.mk('elem', app('in', root), pos + j, ty=m.T.prim('u8'))) for j in range(k))))
            return Seq(n, m.T.prim('u8'), ('uninit',), ((ZERO, n, 'copy', (Seq(total(root), m.T.prim('u8'), ('sym', app('in', root))), pos)),))
        return read_bytes(m, st, key, n)
    @model('oct::decode::input::Input::read')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[0])
        if key is None: return body_call(m, c, v)
        s = take(m, st, key, v[1])
        if s is None: return input_err(m, st, key, v[1], rt)
        cc = m.new_cell(st, s)
        return ok(m, rt, Ptr(cc, (('idx', ZERO),), v[1], targs(m, rt)[0]))
    @model('oct::decode::input::Input::read_into')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[0])
        if key is None: return body_call(m, c, v)
        cell, proj, lo, n = slice_parts(m, st, v[1])
        s = take(m, st, key, n)
        if s is None: return input_err(m, st, key, n, rt)
        d = seq_of(m, st, cell, proj)
        st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, m.seq_blit(st, d, lo, s, ZERO, n))
        return ok(m, rt, UNIT)
    @model('oct::decode::input::Input::remaining', 'oct::encode::output::Output::remaining', 'oct::decode::input::Input::position', 'oct::encode::output::Output::position',
           'oct::decode::input::Input::capacity', 'oct::encode::output::Output::capacity')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[0])
        if key is None: return body_call(m, c, v)
        cur = st.inp.get(key)
        if cur and cur[0] == 'free' and '::input::' in c.get('rpath', c['path']):
            # an arbitrary stream: an unknown number of bytes precedes what is read
            pos, root = cur[1], cur[2]; before = L(app('before', root, lo=0, hi=U63))
            for f in (total(root) - pos, Lin(U63) - total(root) - before):
                if not st.add_fact(f): raise Done('unreach')
            return {'remaining': total(root) - pos, 'position': before + pos, 'capacity': before + total(root)}[c['name']]
        raise Unsupported('%s of an abstract stream' % c['name'])

    def tkey(m, ty): return m.T.s(ty)
    @unres('oct::encode::encode::Encode::encode')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[1]); ty = c['self']
        if key is None: return mem_encode(m, st, c, v, at, rt)
        p = deref_once(m, st, v[0]) if m.T[at[0]]['k'] == 'ref' else v[0]
        x = m.load(st, p) if isinstance(p, Ptr) else p
        if isinstance(x, Uninit):
            m.add_obl(st, 'only live values are encoded', 'fail' if not st.notes else 'undecided', show(p)); raise Done('stop')
        f = app('encode-fails', tkey(m, ty), x)
        if decided(m, st, Bn(('atom', f))):
            st.ghost['@failed'] = (tkey(m, ty), x)
            return err(m, rt, m.mkv('encode-error', x, ty=targs(m, rt)[1]))
        st.emit(key, ('enc', tkey(m, ty), x))
        return ok(m, rt, UNIT)
    @unres('oct::decode::decode::Decode::decode')
    def _(m, st, c, v, at, rt):
        key = skey(m, st, v[0]); ty = c['self']
        if key is None: return mem_decode(m, st, c, v, at, rt)
        cur = st.inp[key]
        if cur and cur[0] == 'free':
            pos, root = cur[1], cur[2]; tk = tkey(m, ty)
            n = L(app('decsize', tk, root, pos, lo=0, hi=U63))
            if not decided(m, st, Bn(('atom', app('decodes', tk, root, pos)))):
                e = m.mkv('decode-error', tk, root, pos, ty=targs(m, rt)[1]); st.ghost['@failed'] = (tk, pos)
                st.inp[key] = ('free', pos + L(app('errsize', tk, root, pos, lo=0, hi=U63)), root)
                return err(m, rt, e)
            if not st.add_fact(total(root) - pos - n): raise Done('unreach')
            st.inp[key] = ('free', pos + n, root)
            x = m.mkv('decoded', tk, root, pos, ty=ty); st.emit('made', ('dv', x, tk))
            return ok(m, rt, x)
        lst = norm_head(m, st, drop_done(m, st, cur))
        if not lst:
            fail_stream(m, st, 'decoding reads back the pieces that encoding wrote', 'a %s is read after the end' % tkey(m, ty))
        h = lst[0]
        if h[0] != 'enc': fail_stream(m, st, 'decoding reads back the pieces that encoding wrote', 'a %s is read where %s was written' % (tkey(m, ty), show_ev(h)))
        x = h[2]
        if h[1] != tkey(m, ty):
            if not borrows(m, ty, h[1]): fail_stream(m, st, 'decoding reads back the pieces that encoding wrote', 'a %s is read where %s was written' % (tkey(m, ty), show_ev(h)))
            x = m.mkv('owned', x, ty=ty)
        lst.pop(0); st.inp[key] = drop_done(m, st, lst)
        return ok(m, rt, x)
    def borrows(m, ty, enc):
        """`ty: DecodeBorrowed<enc>` is in scope: it reads what `enc` writes"""
        for f in m.F['fns']:
            for p in f.get('preds', ()):
                if 'DecodeBorrowed' in str(p) and m.T.s(ty) in str(p) and enc in str(p): return True
        return False
    # abstract elements in concrete streams: the encoding of x is the byte sequence bytes(x) of length encsize(x)
    OUT, INP = 'oct::encode::output::Output', 'oct::decode::input::Input'
    def parts(m, st, p, path):
        p = deref_once(m, st, p); v = m.load(st, p)
        if isinstance(v, A): v = m.expand(st, v)
        if not isinstance(v, Agg) or v.path != path: raise Unsupported('stream ' + show(v))
        b, k = G['field_index'](m, path, 'buf'), G['field_index'](m, path, 'pos')
        return p, v, b, k
    def enc_bytes(m, tk, x):
        n = app('encsize', tk, x, lo=0, hi=U63)
        return app('bytes', tk, x), L(n)
    def mem_encode(m, st, c, v, at, rt):
        ty = c['self']; tk = tkey(m, ty)
        q = deref_once(m, st, v[0]) if m.T[at[0]]['k'] == 'ref' else v[0]
        x = m.load(st, q) if isinstance(q, Ptr) else q
        p, g, b, k = parts(m, st, v[1], OUT)
        cell, proj, lo, cap = slice_parts(m, st, g.f[b]); pos = g.f[k]
        s = seq_of(m, st, cell, proj)
        X, n = enc_bytes(m, tk, x); u8 = m.T.prim('u8')
        fails = decided(m, st, Bn(('atom', app('encode-fails', tk, x))))
        if fails or not decided(m, st, ge0(cap - pos - n)):
            # some prefix may have been written
            w = L(m.fresh('written', m.T.prim('usize')))
            if not st.add_fact(cap - pos - w): raise Done('unreach')
            junk = fresh('junk', None)
            st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, m.seq_blit(st, s, lo + pos, Seq(w, u8, ('sym', junk)), ZERO, w))
            m.store(st, p, g.with_f(k, pos + w))
            return err(m, rt, m.mkv('encode-error', x, ty=targs(m, rt)[1]) if fails else m.fresh('error', targs(m, rt)[1]))
        st.mem[cell] = m.proj_write(st, m.cell_value(st, cell), proj, m.seq_blit(st, s, lo + pos, Seq(n, u8, ('sym', X)), ZERO, n))
        m.store(st, p, g.with_f(k, pos + n))
        return ok(m, rt, UNIT)
    def mem_decode(m, st, c, v, at, rt):
        ty = c['self']; tk = tkey(m, ty)
        p, g, b, k = parts(m, st, v[0], INP)
        cell, proj, lo, cap = slice_parts(m, st, g.f[b]); pos = g.f[k]
        s = seq_of(m, st, cell, proj)
        o = G['content'](m, st, s, lo + pos, cap - pos)
        if o is not None and o[0] == 'o' and o[1].key[0] == 'app' and o[1].key[1] == 'bytes' and o[1].key[2] == tk and st.ent_eq(o[2], ZERO):
            x = o[1].key[3]; n = enc_bytes(m, tk, x)[1]
            if st.ent(cap - pos - n):
                m.store(st, p, g.with_f(k, pos + n)); return ok(m, rt, x)
        w = G['canon'](m, st, G['subseq'](m, st, s, lo + pos, cap - pos))
        good = decided(m, st, Bn(('atom', app('decodes', tk, w, ZERO))))
        n = L(app('decsize' if good else 'errsize', tk, w, ZERO, lo=0, hi=U63))
        if not st.add_fact(cap - pos - n): raise Done('unreach')
        m.store(st, p, g.with_f(k, pos + n))
        if good:
            x = m.mkv('decoded', tk, w, ZERO, ty=ty); st.emit('made', ('dv', x, tk))
            return ok(m, rt, x)
        return err(m, rt, m.mkv('decode-error', tk, w, ZERO, ty=targs(m, rt)[1]))
    @model('vrt::holds')
    def _(m, st, c, v, at, rt):
        cell, proj, lo, n = slice_parts(m, st, v[0]); s = seq_of(m, st, cell, proj); what = text(m, st, v[2])
        evs = flat(m, st, st.rec[skey(m, st, v[1])]); at_ = lo
        for e in evs:
            if e[0] == 'b':
                if not st.ent(lo + n - at_ + (-1)): judge(m, st, what, False, 'the slice ends before ' + show_ev(e)); return UNIT
                r, w = same(m, st, m.seq_read(st, s, at_), e[1])
                if r is not True: judge(m, st, what, r, w); return UNIT
                at_ = at_ + 1
            elif e[0] == 'enc':
                X, k = enc_bytes(m, e[1], e[2])
                o = G['content'](m, st, s, at_, k)
                good = st.ent(lo + n - at_ - k) and o is not None and o[0] == 'o' and o[1] is X and st.ent_eq(o[2], ZERO)
                if not good and not st.ent_eq(k, ZERO): judge(m, st, what, None if has_unk(s) else False, '[%s, +%s) of %s is not %s' % (show(at_), show(k), show(s), show_ev(e))); return UNIT
                at_ = at_ + k
            else: judge(m, st, what, None, 'repetition'); return UNIT
        r = st.ent_eq(at_, lo + n)
        judge(m, st, what, True if r else None if has_unk(n) else False, 'the slice has %s bytes, recorded are %s' % (show(n), show(at_ - lo)))
        return UNIT
