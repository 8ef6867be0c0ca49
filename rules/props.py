"""What decides each property."""
import check, re, typerules
EXPL = 'Abstract interpretation of the MIR of the contract functions and of every function of oct (and core, where not modelled) that they reach: relational linear-inequality domain over symbolic inputs, partitioned traces, array segments, recorded streams. An obligation is discharged when the abstract state entails it for all inputs; nothing is executed.'
def contract(*parts):
    """parts: (witness crate, least number of contract functions, kinds of obligations that belong to the property)"""
    def f(rep, tier):
        rep.level = 'other'
        rep.cov['explanation'] = EXPL
        n = 0
        check.prefetch(list(parts) + [p[:4] for p in parts if len(p) > 4 and p[4]])
        for part in parts:
            wid, least, kinds, only, debug, target = (tuple(part) + (None, None, None, None))[:6]
            res = check.contracts(rep, wid, tier, only=only, kinds=kinds, debug=bool(debug), target=target)
            if debug and res: check.versus(rep, wid, res, tier, only=only)
            check.floor(rep, 'contract functions of w_' + wid, rep.cov.get('contracts', 0) - n, least); n = rep.cov.get('contracts', 0)
    return f
ALLOC = ('encoding allocates nothing', 'decoding allocates no more than the decoded value owns', 'what holds its contents in place allocates nothing', 'a slot is written in the memory it has', 'a slot is read in the memory it has', 'no more memory is taken than there are contents')
WHERE = 'the error tells what is wrong, and where'
PANIC = 'no panic'
PANICS = (PANIC, 'plain arithmetic does not overflow', 'arithmetic must not overflow')
def only(*ks): return lambda k: k in ks
def without(*ks): return lambda k: k not in ks
SAFETY = ('a slice stays inside its object', 'access stays inside its object', 'an unchecked access stays in bounds', 'copy stays inside its source', 'copy stays inside its destination', 'copied elements are initialised',
    'every element of a slice is initialised', 'only initialised memory is read', 'only initialised bytes are written', 'all elements of a vector are initialised', 'a vector is not made longer than its allocation', 'an allocation is not zero-sized', 'memory is given back as it was taken',
    'only live values are dropped', 'only live values are encoded', 'only valid UTF-8 becomes a string', 'a C string contains no inner NUL byte', 'only Unicode scalar values become characters', 'code declared unreachable is unreachable',
    'unchecked arithmetic does not overflow', 'the length never exceeds the capacity')
ALL = (('c01', 101), ('c02', 97), ('c03', 80), ('c04', 159), ('c05', 12), ('c06', 91), ('c07', 40), ('c08', 82), ('c09', 15), ('c10', 36), ('c11', 22), ('c13', 55), ('c16', 98), ('c20', 113), ('c21', 38), ('c23', 14), ('c26', 24))
# contracts of panics that are the same in every build
STEADY = lambda r: not re.search('check_(duration_carry|never_enum_decode)$', r)
CHECKS = {
    'C01': contract(('c01', 101)),
    'C02': contract(('c02', 97)),
    'C03': contract(('c03', 80), ('c04', 159, only('an encoding is never larger than the declared maximum'))),
    'C04': contract(('c04', 159)),
    'C05': contract(('c05', 12)),
    'C06': contract(('c06', 91, without(WHERE, *PANICS))),
    'C07': contract(('c07', 40)),
    'C08': contract(('c08', 82, without(*PANICS, *SAFETY))),
    'C09': contract(('c09', 15)),
    'C10': contract(('c10', 36)),
    'C11': contract(('c11', 22)),
    'C26': contract(('c26', 24)),
    'C28': contract(('c28', 250, only(*ALLOC))),
    'C23': contract(('c23', 14), ('c07', 14, None, lambda r: bool(re.search('check_(str_(new|from_str|try_from|from_utf8|raw|from_iter)|slice_(new|raw|from_i))', r)))),
    'C13': contract(('c13', 55)),
    'C14': contract(('c06', 91, only(WHERE)), ('c16', 98, only(WHERE))),
    'C15': contract(('c06', 91, only(*PANICS))),
    'C18': contract(*[(w, n, only(*SAFETY)) for w, n in ALL if w not in ('c13', 'c20', 'c26')]),
    'C27': contract(*[(w, n - 1, only(*PANICS), STEADY, True) for w, n in ALL]),
    'C29': contract(*[(w, n - (w == 'c06'), without(*SAFETY), STEADY, None, t) for t in ('s390x-unknown-linux-gnu', 'i686-unknown-linux-gnu') for w, n in ALL if w in ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c11', 'c16', 'c21')]),
    'C16': contract(('c16', 98, without(WHERE))),
    'C12': typerules.feat,
    'C30': typerules.platforms,
    'C20': contract(('c20', 113)),
    'C21': contract(('c21', 38)),
    'C22': typerules.typed(typerules.views, typerules.streams, least=200),
    'C24': typerules.typed(typerules.invariants, least=90),
    'C25': typerules.typed(typerules.derives, pre=typerules.DPRE, least=60),
}
