"""Linear-inequality domain: entailment over the integers' rational relaxation (Fourier-Motzkin with
integer tightening).  Sound: 'infeasible' is only reported when it is."""
from math import gcd
from terms import Lin, L

LIMIT = 400

def _tight(c, d):
    g = 0
    for k in d.values(): g = gcd(g, k)
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = c // g   # floor: sum + c >= 0  with sum multiple of g
    return c, d

def infeasible(cons):
    """cons: list of (c, {atom: k}) meaning c + sum k*a >= 0; returns True if no integer solution (sufficient test)."""
    cs = {}
    def put(c, d):
        if not d: return c < 0
        c, d = _tight(c, d)
        key = tuple(sorted(((a.id, k) for a, k in d.items())))
        o = cs.get(key)
        if o is None or c < o[0]: cs[key] = (c, d)
        return False
    for c, d in cons:
        if put(c, dict(d)): return True
    while cs:
        # quick contradiction among opposite pairs
        occ = {}
        for key, (c, d) in cs.items():
            neg = tuple((i, -k) for i, k in key)
            o = cs.get(neg)
            if o is not None and c + o[0] < 0: return True
            for a, k in d.items():
                p = occ.setdefault(a, [0, 0]); p[0 if k > 0 else 1] += 1
        if not occ: return False
        best = min(occ, key=lambda a: (occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1], a.id))
        pos, neg, rest = [], [], {}
        for key, (c, d) in cs.items():
            k = d.get(best, 0)
            if k > 0: pos.append((c, d, k))
            elif k < 0: neg.append((c, d, -k))
            else: rest[key] = (c, d)
        cs = rest
        if len(pos) * len(neg) + len(rest) > LIMIT: return False
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                d = {}
                for a, k in d1.items(): d[a] = k * m1
                for a, k in d2.items():
                    n = d.get(a, 0) + k * m2
                    if n: d[a] = n
                    else: d.pop(a, None)
                d.pop(best, None)
                if put(c1 * m1 + c2 * m2, d): return True
    return False

def relevant(facts, seed):
    """facts connected to the seed atoms"""
    atoms = set(a for a, _ in seed.t)
    todo = list(facts); out = []
    ch = True
    while ch:
        ch = False; rest = []
        for f in todo:
            if any(a in atoms for a, _ in f.t):
                out.append(f); n = len(atoms); atoms.update(a for a, _ in f.t); ch = True
            else: rest.append(f)
        todo = rest
    return out, atoms

def query(facts, e):
    """True if facts |= e >= 0"""
    neg = -e + (-1)
    rel, atoms = relevant(facts, neg)
    cons = [(neg.c, dict(neg.t))] + [(f.c, dict(f.t)) for f in rel]
    for a in atoms:
        if a.lo is not None: cons.append((-a.lo, {a: 1}))
        if a.hi is not None: cons.append((a.hi, {a: -1}))
    return infeasible(cons)
