"""Formatting: what a formatter was given to show, piece by piece."""
from terms import *
from interp import Fork, Done, Unsupported
G = {}
IO = 'core::fmt::Formatter'

class Opaque(Exception): pass

def fid(m, st, p):
    q = G['deref'](m, st, p); f = m.load(st, q)
    while isinstance(f, Ptr): f = m.load(st, f)
    if not (isinstance(f, A) and f.key[0] == 'app' and f.key[1] == 'formatter'): raise Unsupported('formatter ' + show(f))
    return f
def emit(st, f, ev): st.ghost['@fmt'] = st.ghost.get('@fmt', ()) + ((f, ev),)
def shown(st, f): return [e for g, e in st.ghost.get('@fmt', ()) if g is f]
def value(m, st, p, ty):
    """the value behind a reference to `ty`, looking through references and boxes of what is shown"""
    for _ in range(8):
        t = m.T[ty]
        if t['k'] in ('slice', 'str'): return G['slice_value'](m, st, p), ty
        if t['k'] != 'ref': break
        x = m.load(st, p)
        if not isinstance(x, Ptr):
            x = G['deref'](m, st, x)
        p = x; ty = t['to']
        if m.T[ty]['k'] == 'dyn':
            o = getattr(x, 'ty', None)
            if o is None or m.T[o].get('to') is None or m.T[m.T[o]['to']]['k'] == 'dyn': raise Opaque('dynamic type of ' + show(x))
            ty = m.T[o]['to']
    return m.load(st, p), ty
def pieces(b):
    i = 0; n = 0; out = []
    while i < len(b):
        k = b[i]; i += 1
        if k == 0: break
        if k < 0x80: out.append(('text', bytes(b[i:i + k]))); i += k
        elif k == 0x80:
            l = b[i] + 256 * b[i + 1]; i += 2
            out.append(('text', bytes(b[i:i + l]))); i += l
        else:
            s = (4 if k & 1 else 0) + (2 if k & 2 else 0) + (2 if k & 4 else 0)
            opts = bytes(b[i:i + s]); i += s
            if k & 8: n = b[i] + 256 * b[i + 1]; i += 2
            out.append(('arg', n, bytes([k & 0x37]) + opts)); n += 1
    return out
def result(m, rt): return m.fresh('fmt', rt)

KINDS = {'Display': 'display', 'Debug': 'debug', 'UpperHex': 'upper_hex', 'LowerHex': 'lower_hex', 'Octal': 'octal', 'Binary': 'binary', 'Pointer': 'pointer', 'LowerExp': 'lower_exp', 'UpperExp': 'upper_exp'}
def install(M, MS, UNRES, g):
    G.update(g)
    def model(*ps):
        def d(f):
            for p in ps: M[p] = f
            return f
        return d
    @model('vrt::formatter')
    def _(m, st, c, v, at, rt): return m.mkv('formatter', Lin(next(m.uid)), ty=rt)
    for T_, k in KINDS.items():
        def arg(m, st, c, v, at, rt, k=k): return Agg('core::fmt::rt::Argument', None, (k, v[0], at[0]), rt)
        M['core::fmt::rt::Argument::new_' + k] = arg
        def fmt(m, st, c, v, at, rt, k=k):
            if c['k'] == 'item' and c.get('body') is not None and (m.bodies[c['body']]['file'] or '').startswith(G['REPO']): return ('@call', c['body'], v, None)
            f = fid(m, st, v[1])
            x, ty = value(m, st, G['deref'](m, st, v[0]), m.T[at[0]]['to'])
            emit(st, f, ('val', k, None, ty, x)); return result(m, rt)
        M['core::fmt::%s::fmt' % T_] = fmt
    @model('core::fmt::Arguments::new')
    def _(m, st, c, v, at, rt): return Agg('core::fmt::Arguments', None, (v[0], v[1]), rt)
    @model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst')
    def _(m, st, c, v, at, rt): return Agg('core::fmt::Arguments', None, (v[0], None), rt)
    @model('core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad', 'core::fmt::Write::write_str')
    def _(m, st, c, v, at, rt):
        f = fid(m, st, v[0]); s = G['slice_value'](m, st, v[1])
        emit(st, f, ('val', 'display', b'' if c['path'].endswith('write_str') else None, m.T.find('str'), s)); return result(m, rt)
    @model('core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt')
    def _(m, st, c, v, at, rt):
        f = fid(m, st, v[0]); a = v[1]
        if not (isinstance(a, Agg) and a.f and isinstance(a.f[0], Ptr)): raise Unsupported('format arguments ' + show(a))
        t = G['deref'](m, st, a.f[0])
        if a.f[1] is None: return result(m, rt)
        s = m.load(st, t)
        try: b = [x.c for x in s.base[1]]
        except Exception: raise Unsupported('format template ' + show(s))
        for p in pieces(b):
            if p[0] == 'text': continue
            x = m.load(st, G['deref'](m, st, a.f[1]))
            if isinstance(x, Seq): x = m.seq_read(st, x, Lin(p[1]))
            else: x = x.f[p[1]]
            if not (isinstance(x, Agg) and x.path == 'core::fmt::rt::Argument'): raise Unsupported('format argument ' + show(x))
            try: y, ty = value(m, st, G['deref'](m, st, x.f[1]), m.T[x.f[2]]['to'])
            except Opaque as o: raise Unsupported(str(o))
            emit(st, f, ('val', x.f[0], p[2], ty, y))
        return result(m, rt)
    def leaves(m, st, ev, top=True):
        _, k, o, ty, x = ev; t = m.T[ty]
        if t['k'] == 'adt' and t['path'].startswith('oct::error') and isinstance(x, (A, Agg)):
            e = m.expand(st, x) if isinstance(x, A) else x
            if e is None: e = m.split_variants(st, x)
            if isinstance(e, Agg) and t.get('vf'):
                out = []
                for i, fty in enumerate(t['vf'][e.var or 0]): out += leaves(m, st, ('val', k, o, fty, e.f[i]))
                return out
        return [ev]
    def compare(m, st, f, g, what, strict):
        a, b = shown(st, f), shown(st, g)
        if not strict: a = [y for x in a for y in leaves(m, st, x) if not (isinstance(y[4], Lin) and not y[4].t)]; b = [y for x in b for y in leaves(m, st, x) if not (isinstance(y[4], Lin) and not y[4].t)]
        if len(a) != len(b): return False, '%d values are shown instead of %d' % (len(a), len(b))
        ans = True; why = None
        for i, (x, y) in enumerate(zip(a, b)):
            if strict and (x[1], x[2]) != (y[1], y[2]): return False, 'shown as %s %s instead of %s %s' % (x[1], x[2], y[1], y[2])
            r, w = G['same'](m, st, x[4], y[4], x[3], y[3])
            if r is False: return False, 'value %d: %s' % (i, w)
            if r is None: ans = None; why = w
        return ans, why
    def cmp(strict):
        def f(m, st, c, v, at, rt):
            a, b = fid(m, st, v[0]), fid(m, st, v[1]); what = G['text'](m, st, v[2])
            r, w = compare(m, st, a, b, what, strict)
            G['judge'](m, st, what, r, w); return UNIT
        return f
    M['vrt::same_shown'] = cmp(False); M['vrt::same_format'] = cmp(True)
