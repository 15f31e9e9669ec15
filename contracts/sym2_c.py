"""Contracts on /repo/symmetric.py: symmetric functions as generating functions (C12), basis expansions (C14)."""
from pyvc.spec import Loop

SP = 'symmetric.SymmetricPolynomial.'
T = 'tuple[int]'
CD = 'dict[%s,int]' % T
SD = 'dict[SymMon,R]'


def register(r):
    d = r.define
    C = dict(props=['C12'])
    r.gconst('polynomials.beta', 'R', 'X(0)')
    CNT = ['n >= 0', 'forall("%s", lambda p: implies(p in tableaux, ispart(p) and len(p) <= n))' % T]
    # the coefficient of m_p in n variables is the number of tableaux of weight p, times a power of the sign
    cnt = {'none': 'kc(tableaux, k.mu)', 'ring': 'kc(tableaux, k.mu) * signs ** sum(k.mu)'}
    seen = {'none': 'tableaux[k.mu]', 'ring': 'tableaux[k.mu] * signs ** sum(k.mu)'}
    r.specfn('rpow', {'s': 'R', 'e': 'int'}, 'R', 's ** e', fuel=1)
    for sg, st in (('none', '=None'), ('ring', 'R')):
        for db, dt in (('', '=None'), ('_bounded', 'int')):
            val = cnt[sg]
            bound = ' and sum(k.mu) <= degree_bound' if db else ''
            r.contract(SP + '_vectorize', variant=sg + db, params={'n': 'int', 'tableaux': CD, 'signs': st, 'degree_bound': dt}, returns='SymPoly',
                       requires=CNT + (['signs != 0'] if sg == 'ring' else []),
                       ensures=['forall("SymMon", lambda k: vc(result, k) == (%s if k.n == n and k.mu in tableaux%s else 0))' % (val, bound), 'nzs(result)',
                                'forall("SymMon", lambda k: implies(k in result.dictionary, smon(k) and k.n == n))'],
                       loops=[Loop('for partition, count in tableaux.items()', tag='t', types={'dictionary': SD},
                                   inv=['forall("SymMon", lambda k: kc(dictionary, k) == (%s if k.n == n and k.mu in _vis_t else 0))' % seen[sg],
                                        'forall("SymMon", lambda k: implies(k in dictionary, smon(k) and k.n == n))'])], **C)
    # ---- expansions: the coefficients returned rebuild the function (C14)
    C = dict(props=['C14'])
    r.absfn('BF', ['int', T], 'SymPoly')        # a family of symmetric polynomials indexed by number of variables and shape
    r.absfn('GT', ['SymPoly'], 'SymMon')        # a choice of leading term
    RD = 'dict[%s,R]' % T
    r.fold('recon', {'h': 'BF', 'n': 'int', 'v': RD, 'k': 'SymMon'}, 'mu', T, 'kc(v, mu) * vc(h(n, mu), k)', rty='R')
    PR = {'h': 'BF', 'n': 'int', 'k': 'SymMon'}
    ST = 'set[%s]' % T
    NZ = 'forall("%s", lambda m: implies(m in %%s, %%s[m] != 0))' % T
    r.lemma('recon_add', params=dict(PR, u=RD, v=RD, w=RD, S=ST), setind='S', requires=['forall("%s", lambda m: kc(w, m) == kc(u, m) + kc(v, m))' % T],
            ensures=['recon(h, n, w, k, S) == recon(h, n, u, k, S) + recon(h, n, v, k, S)'], **C)
    r.lemma('recon_one', params=dict(PR, v=RD, a=T, S=ST), setind='S', requires=['forall("%s", lambda m: implies(m != a, kc(v, m) == 0))' % T],
            ensures=['recon(h, n, v, k, S) == (kc(v, a) * vc(h(n, a), k) if a in S else 0)'], **C)
    r.lemma('recon_more', params=dict(PR, v=RD, a=T, S=ST), requires=['implies(a not in S, kc(v, a) == 0)'],
            uses=['implies(a in S, seteq(store(S, a), S))'], ensures=['recon(h, n, v, k, store(S, a)) == recon(h, n, v, k, S)'], **C)
    DU, DW = 'setof("%s", lambda m: m in u)' % T, 'setof("%s", lambda m: m in w)' % T
    r.lemma('recon_step', params=dict(PR, u=RD, v=RD, w=RD, a=T),
            requires=[NZ % ('u', 'u'), NZ % ('w', 'w'), 'forall("%s", lambda m: implies(m != a, kc(v, m) == 0))' % T, 'forall("%s", lambda m: kc(w, m) == kc(u, m) + kc(v, m))' % T],
            uses=['recon_more(h, n, k, u, a, %s)' % DU, 'recon_more(h, n, k, w, a, %s)' % DW, 'seteq(store(%s, a), store(%s, a))' % (DU, DW),
                  'recon_add(h, n, k, u, v, w, store(%s, a))' % DU, 'recon_one(h, n, k, v, a, store(%s, a))' % DU],
            ensures=['recon(h, n, w, k, w) == recon(h, n, u, k, u) + kc(v, a) * vc(h(n, a), k)'], **C)
    r.contract(SP + '_expansion', partial=True, params={'f': 'SymPoly', 'function': 'BF', 'get_term': 'GT'}, returns='OVector', locals={'c': 'R', 'd': 'int', 'cdeg': 'int'},
               requires=['nzs(f)', 'forall("int,%s", lambda n, m: nzs(function(n, m)) and forall("SymMon", lambda j: implies(j in function(n, m).dictionary, j.n == n)), lambda n, m: function(n, m))' % T,
                         'forall("SymPoly", lambda v: implies(exists("SymMon", lambda j: j in v.dictionary), get_term(v) in v.dictionary), lambda v: get_term(v))'],
               ensures=['nzOVector(result)', 'forall("int,SymMon", lambda n, k: implies(forall("SymMon", lambda j: implies(j in f.dictionary, j.n == n)), vc(f, k) == recon(function, n, result.dictionary, k, result.dictionary)))'],
               calls={'__add__': ['forall("%s,int,SymMon", lambda w, n, k: recon_step(function, n, k, arg_self.dictionary, arg_other.dictionary, w, mu), lambda w, n, k: recon(function, n, w, k, w))' % RD]}, **C)
