"""Contracts on /repo/symmetric.py: monomial symmetric functions and their products (C13)."""
from pyvc.spec import Loop

SM = 'symmetric.SymmetricMonomial.'
T = 'tuple[int]'


def register(r):
    d = r.define
    C = dict(props=['C13'])
    # occurrences of v in t; rearrangements of mu padded with zeros to length n
    r.specfn('occ', {'t': T, 'v': 'int'}, 'int', '0 if len(t) == 0 else (1 if t[0] == v else 0) + occ(t[1:], v)')
    d('rearr', 'y,n,mu', 'len(y) == n and forall("int", lambda v: implies(v != 0, occ(y, v) == occ(mu, v)), lambda v: occ(y, v))')
    r.lemma('occ_pos', params={'t': T, 'v': 'int'}, dec='len(t)', ih=['t[1:], v'],
            ensures=['occ(t, v) >= 0', 'occ(t, v) == 0 or exists("int", lambda i: 0 <= i and i < len(t) and t[i] == v)'], **C)
    r.lemma('occ_at', params={'t': T, 'i': 'int'}, dec='len(t)', ih=['t[1:], i - 1'], requires=['0 <= i and i < len(t)'], uses=['occ_pos(t[1:], t[i])'], ensures=['occ(t, t[i]) >= 1'], **C)
    r.lemma('occ_drop', params={'t': T, 'i': 'int', 'v': 'int'}, dec='len(t)', ih=['t[1:], i - 1, v'], requires=['0 <= i and i < len(t)'],
            uses=['implies(i == 0, same(t[:i] + t[i + 1:], t[1:]))', 'implies(i > 0, same((t[:i] + t[i + 1:])[1:], t[1:][:i - 1] + t[1:][i:]))', 'implies(i > 0, (t[:i] + t[i + 1:])[0] == t[0])'],
            ensures=['occ(t[:i] + t[i + 1:], v) == occ(t, v) - (1 if t[i] == v else 0)'], **C)
    r.contract(SM + '_destandardize', params={'n': 'int', 'mu': T}, requires=['ispart(mu)', 'n >= 0'], dec='n', ytype=T, yields='lambda y: rearr(y, n, mu)',
               loops=[Loop('for alpha in cls._destandardize(n - 1, mu)', tag='z', inv=['forall("%s", lambda y: iff(y in _Y, rearr(y, n, mu) and len(y) > 0 and y[0] == 0 and y[1:] in _vis_z))' % T],
                           hints=['same(term((0,) + alpha)[1:], alpha)', 'forall("%s", lambda y: implies(len(y) > 0 and y[0] == 0 and same(y[1:], alpha), same(y, (0,) + alpha)))' % T]),
                      Loop('for i, part in enumerate(mu)', tag='p', inv=['forall("%s", lambda y: iff(y in _Y, rearr(y, n, mu) and len(y) > 0 and (y[0] == 0 or exists("int", lambda a: 0 <= a and a < _i_p and mu[a] == y[0]))))' % T],
                           step=['forall("int", lambda v: occ_drop(mu, i, v), lambda v: occ(mu, v))', 'forall("int", lambda v: occ_drop(mu, i, v), lambda v: occ(mu[:i] + mu[i + 1:], v))'],
                           hints=['forall("%s,int", lambda y, v: implies(len(y) > 0, occ(y, v) == (1 if y[0] == v else 0) + occ(y[1:], v)), lambda y, v: occ(y[1:], v))' % T,
                                  'forall("int", lambda v: occ(mu[:i] + mu[i + 1:], v) == occ(mu, v) - (1 if part == v else 0), lambda v: occ(mu, v))',
                                  'forall("int", lambda v: occ(mu[:i] + mu[i + 1:], v) == occ(mu, v) - (1 if part == v else 0), lambda v: occ(mu[:i] + mu[i + 1:], v))',
                                  'forall("%s", lambda y: implies(len(y) > 0 and y[0] == part and rearr(y, n, mu), rearr(y[1:], n - 1, mu[:i] + mu[i + 1:])), lambda y: y[1:])' % T,
                                  'forall("%s", lambda y: implies(len(y) > 0 and y[0] == part and rearr(y[1:], n - 1, mu[:i] + mu[i + 1:]), rearr(y, n, mu)), lambda y: y[1:])' % T]),
                      Loop('for alpha in cls._destandardize(n - 1, nu)', tag='q',
                           inv=['forall("%s", lambda y: iff(y in _Y, rearr(y, n, mu) and len(y) > 0 and (y[0] == 0 or exists("int", lambda a: 0 <= a and a < i and mu[a] == y[0]) or y[0] == part and y[1:] in _vis_q)))' % T],
                           step=['same(term((part,) + alpha)[1:], alpha)'],
                           hints=['same(term((part,) + alpha)[1:], alpha)', 'forall("%s", lambda y: implies(len(y) > 0 and y[0] == part and same(y[1:], alpha), same(y, (part,) + alpha)))' % T])],
               uses=['forall("%s,int", lambda t, v: occ_pos(t, v), lambda t, v: occ(t, v))' % T, 'forall("%s,int", lambda t, i: occ_at(t, i), lambda t, i: t[i])' % T], **C)
    r.contract('partitions.Partition.sort', variant='partition', params={'mu': T, 'trim': 'bool'}, returns=T, pure=True, requires=['ispart(mu)'], ensures=['result == mu'], **C)
    r.model('SymMon', 'symmetric.SymmetricMonomial', {'n': 'int', 'mu': T})
    d('smon', 'f', 'ispart(f.mu) and len(f.mu) <= f.n')
    r.contract(SM + '__init__', pure=True, params={'n': 'int', 'mu': T}, returns='SymMon', requires=['ispart(mu)', 'len(mu) <= n'], ensures=['result.n == n', 'result.mu == mu'], **C)
    # coefficient of m_g in m_mu m_nu in n variables: the rearrangements a of mu for which g - a is a rearrangement of nu
    r.specfn('compl', {'g': T, 'a': T, 'n': 'int'}, T, 'tuple(seqof("int", n, lambda i: pget(g, i + 1) - a[i]))', fuel=1)
    r.specfn('isre', {'y': T, 'n': 'int', 'mu': T}, 'bool', 'rearr(y, n, mu)', fuel=1)
    ST = 'set[%s]' % T
    r.specfn('mset', {'A': ST, 'g': T, 'nu': T, 'n': 'int'}, ST, 'setof("%s", lambda a: a in A and isre(compl(g, a, n), n, nu))' % T, fuel=1)
    r.specfn('mcard', {'A': ST, 'g': T, 'nu': T, 'n': 'int'}, 'int', 'card(mset(A, g, nu, n))', fuel=1)
    r.specfn('mall', {'mu': T, 'nu': T, 'n': 'int', 'g': T}, ST, 'setof("%s", lambda a: isre(a, n, mu) and isre(compl(g, a, n), n, nu))' % T, fuel=1)
    r.specfn('mprod', {'mu': T, 'nu': T, 'n': 'int', 'g': T}, 'int', 'card(mall(mu, nu, n, g)) if ispart(g) and len(g) <= n else 0', fuel=1)
    PM = {'A': ST, 'g': T, 'nu': T, 'n': 'int'}
    r.lemma('mcard_step', params=dict(PM, x=T), requires=['x not in A'],
            uses=['implies(isre(compl(g, x, n), n, nu), seteq(mset(store(A, x), g, nu, n), store(mset(A, g, nu, n), x)))', 'implies(not isre(compl(g, x, n), n, nu), seteq(mset(store(A, x), g, nu, n), mset(A, g, nu, n)))'],
            ensures=['mcard(store(A, x), g, nu, n) == mcard(A, g, nu, n) + (1 if isre(compl(g, x, n), n, nu) else 0)'], **C)
    r.lemma('mcard_empty', params=dict(PM), requires=['forall("%s", lambda a: a not in A)' % T], uses=['seteq(mset(A, g, nu, n), emptyset("%s"))' % T], ensures=['mcard(A, g, nu, n) == 0'], **C)
    r.lemma('mcard_all', params=dict(PM, mu=T), requires=['forall("%s", lambda a: iff(a in A, isre(a, n, mu)))' % T, 'ispart(g) and len(g) <= n'],
            uses=['seteq(mset(A, g, nu, n), mall(mu, nu, n, g))'], ensures=['mcard(A, g, nu, n) == mprod(mu, nu, n, g)'], **C)
    r.lemma('part_pget_len', params={'t': T, 'g': T, 'n': 'int'}, requires=['ispart(t)', 'ispart(g)', 'len(t) <= n', 'len(g) <= n', 'forall("int", lambda i: implies(0 <= i and i < n, pget(t, i + 1) == pget(g, i + 1)))'],
            uses=['implies(len(t) > len(g), pget(t, len(t)) == pget(g, len(t)))', 'implies(len(t) < len(g), pget(t, len(g)) == pget(g, len(g)))'], ensures=['len(t) == len(g)'], **C)
    r.lemma('part_pget_eq', params={'t': T, 'g': T, 'n': 'int'}, requires=['ispart(t)', 'ispart(g)', 'len(t) <= n', 'len(g) <= n', 'forall("int", lambda i: implies(0 <= i and i < n, pget(t, i + 1) == pget(g, i + 1)))'],
            uses=['part_pget_len(t, g, n)', 'forall("int", lambda i: implies(0 <= i and i < n, pget(t, i + 1) == pget(g, i + 1)), lambda i: t[i])'], ensures=['same(t, g)'], **C)
    d('gpart', 't,n', 'ispart(t) and len(t) <= n')
    r.gdict('symmetric.MONOMIAL_PRODUCT_CACHE', 'dict[tup[%s,%s,int],dict[%s,int]]' % (T, T, T),
            'lambda k, v: forall("%s", lambda g: kc(v, g) == mprod(k[0], k[1], k[2], g) and implies(g in v, v[g] > 0 and gpart(g, k[2])))' % T)
    r.contract(SM + 'order', params={'self': 'SymMon'}, returns='int', macro='self.n', **C)
    r.contract(SM + 'index', params={'self': 'SymMon'}, returns=T, macro='self.mu', **C)
    POS = 'forall("%s", lambda t: implies(t in ans, ans[t] > 0 and gpart(t, n)))' % T
    r.contract(SM + '_multiply', params={'f': 'SymMon', 'g': 'SymMon'}, returns='dict[%s,int]' % T, requires=['smon(f)', 'smon(g)', 'f.n == g.n'], fresh=False,
               ensures=['forall("%s", lambda t: kc(result, t) == mprod(f.mu, g.mu, min(f.n, len(f.mu) + len(g.mu)), t))' % T, 'forall("%s", lambda t: implies(t in result, result[t] > 0 and gpart(t, f.n)))' % T],
               loops=[Loop('for alpha in cls._destandardize(n, mu)', tag='a', types={'ans': 'dict[%s,int]' % T}, inv=['forall("%s", lambda t: kc(ans, t) == (mcard(_vis_a, t, nu, n) if gpart(t, n) else 0))' % T, POS],
                           step=['forall("%s", lambda t: mcard_step(_vis_a, t, nu, n, alpha), lambda t: kc(ans, t))' % T],
                           hints=['forall("%s", lambda t: mcard_step(_vis_a0, t, nu, n, alpha))' % T],
                           exit=['forall("%s", lambda t: mcard_all(_vis_a, t, nu, n, mu))' % T]),
                      Loop('for blpha in cls._destandardize(n, nu)', tag='b', types={'ans': 'dict[%s,int]' % T},
                           inv=['forall("%s", lambda t: kc(ans, t) == (mcard(_vis_a, t, nu, n) + (1 if compl(t, alpha, n) in _vis_b else 0) if gpart(t, n) else 0))' % T, POS],
                           hints=['forall("%s", lambda t: implies(gpart(t, n) and same(compl(t, alpha, n), blpha), forall("int", lambda i: implies(0 <= i and i < n, pget(t, i + 1) == alpha[i] + blpha[i]))), lambda t: compl(t, alpha, n))' % T,
                                  'forall("%s", lambda t: implies(gpart(t, n) and same(compl(t, alpha, n), blpha), part_pget_eq(t, gamma, n)), lambda t: compl(t, alpha, n))' % T,
                                  'same(compl(gamma, alpha, n), blpha)', 'forall("%s", lambda t: implies(gpart(t, n), iff(t == gamma, same(compl(t, alpha, n), blpha))), lambda t: compl(t, alpha, n))' % T,
                                  'forall("%s", lambda t: kc(ans, t) == kc(ans0, t) + (1 if t == gamma and gpart(t, n) else 0))' % T]),
                      Loop('while gamma and gamma[-1] == 0', dec='len(gamma)', inv=['len(gamma) <= n', 'wdec(gamma)', 'nonneg(gamma)', 'forall("int", lambda i: implies(0 <= i and i < n, pget(gamma, i + 1) == alpha[i] + blpha[i]))'])],
               uses=['forall("%s,%s,%s,int", lambda A, g, nu, n: mcard_empty(A, g, nu, n), lambda A, g, nu, n: mcard(A, g, nu, n))' % (ST, T, T)],
               **C)

    # ---- symmetric polynomials: coefficients of monomial symmetric functions, in the ring R
    SD = 'dict[SymMon,R]'
    SP = 'symmetric.SymmetricPolynomial.'
    V = 'vectors.Vector.'
    r.model('SymPoly', 'symmetric.SymmetricPolynomial', {'dictionary': SD}, ignore=('printer',), fnattrs={'multiplier': SP + '__init__.m'})
    d('nzs', 'v', 'forall("SymMon", lambda k: implies(k in v.dictionary, v.dictionary[k] != 0))')
    r.contract(SM + '__eq__', variant='mon', params={'self': 'SymMon', 'other': 'SymMon'}, returns='bool', ensures=['iff(result, self.n == other.n and self.mu == other.mu)'], **C)
    MI = 'tup[SymMon,int]'
    d('mcoef', 'a,b,k', 'mprod(a.mu, b.mu, min(a.n, len(a.mu) + len(b.mu)), k.mu) if k.n == a.n else 0')
    r.contract(SP + '__init__.m', params={'a': 'SymMon', 'b': 'SymMon'}, requires=['smon(a)', 'smon(b)', 'a.n == b.n'], ytype=MI,
               yields='lambda y: smon(y[0]) and y[0].n == a.n and y[1] == mcoef(a, b, y[0]) and y[1] != 0',
               loops=[Loop('for mu, coeff in SymmetricMonomial._multiply(a, b).items()', tag='p',
                           inv=['forall("%s", lambda y: iff(y in _Y, smon(y[0]) and y[0].n == a.n and y[1] == mcoef(a, b, y[0]) and y[1] != 0 and y[0].mu in _vis_p))' % MI])], **C)
    r.contract(SP + '__init__', params={'dictionary': SD, 'printer': '?', 'multiplier': '?'}, returns='SymPoly',
               ensures=['forall("SymMon", lambda k: vc(result, k) == kc(dictionary, k))', 'nzs(result)'], **C)
    r.contract(V + '__getitem__', variant='sym', params={'self': 'SymPoly', 'item': 'SymMon'}, returns='R', macro='vc(self, item)', **C)
    r.contract(V + '__len__', variant='sym', params={'self': 'SymPoly'}, returns='int', macro='card(self.dictionary)', **C)
    for nm in ('__add__', '__radd__', '__sub__'):
        r.contract(V + nm, variant='sym_zero', params={'self': 'SymPoly', 'other': '=0'}, returns='SymPoly', macro='self', **C)
    for nm, op in (('__add__', '+'), ('__sub__', '-'), ('__radd__', '+')):
        r.contract(V + nm, variant='sym', params={'self': 'SymPoly', 'other': 'SymPoly'}, returns='SymPoly', requires=['nzs(self)', 'nzs(other)'],
                   ensures=['forall("SymMon", lambda k: vc(result, k) == vc(self, k) %s vc(other, k))' % op, 'nzs(result)'], **C)
    for nm in ('__mul__', '__rmul__'):
        for s, t in (('int', 'int'), ('ring', 'R')):
            r.contract(V + nm, variant='sym_' + s, params={'self': 'SymPoly', 'other': t}, returns='SymPoly', requires=['nzs(self)'],
                       ensures=['forall("SymMon", lambda k: vc(result, k) == vc(self, k) * other)', 'nzs(result)'], **C)
    # products: coefficients multiply through the structure constants of the monomial basis
    r.fold('srow', {'p': 'SymPoly', 'q': 'SymPoly', 'm': 'SymMon', 'a': 'SymMon'}, 'b', 'SymMon', 'p.dictionary[a] * q.dictionary[b] * mcoef(a, b, m)', rty='R')
    r.fold('scol', {'p': 'SymPoly', 'q': 'SymPoly', 'm': 'SymMon'}, 'a', 'SymMon', 'srow(p, q, m, a, q.dictionary)', rty='R')
    d('symkeys', 'v', 'forall("SymMon", lambda k: implies(k in v.dictionary, smon(k)))')
    MULR = ['nzs(self)', 'nzs(other)', 'symkeys(self)', 'symkeys(other)', 'forall("SymMon,SymMon", lambda a, b: implies(a in self.dictionary and b in other.dictionary, a.n == b.n))']
    r.contract(V + '__mul__', variant='sym', params={'self': 'SymPoly', 'other': 'SymPoly'}, returns='SymPoly', requires=MULR,
               ensures=['forall("SymMon", lambda k: vc(result, k) == scol(self, other, k, self.dictionary))', 'nzs(result)', 'symkeys(result)'],
               loops=[Loop('for a, x in self.items()', tag='a', types={'ans': SD}, inv=['forall("SymMon", lambda k: kc(ans, k) == scol(self, other, k, _vis_a))', 'forall("SymMon", lambda k: implies(k in ans, smon(k)))']),
                      Loop('for b, y in other.items()', tag='b', types={'ans': SD}, inv=['forall("SymMon", lambda k: kc(ans, k) == scol(self, other, k, _vis_a) + srow(self, other, k, a, _vis_b))', 'forall("SymMon", lambda k: implies(k in ans, smon(k)))']),
                      Loop('for m, coeff in self.multiplier(a, b) if self.multiplier else [(a * b, 1)]', tag='m', types={'ans': SD},
                           inv=['forall("SymMon", lambda k: kc(ans, k) == scol(self, other, k, _vis_a) + srow(self, other, k, a, _vis_b) + (x * y * mcoef(a, b, k) if (k, mcoef(a, b, k)) in _vis_m else 0))', 'forall("SymMon", lambda k: implies(k in ans, smon(k)))'])], **C)
    r.contract(SP + '__eq__', variant='zero', params={'self': 'SymPoly', 'other': '=0'}, returns='bool', ensures=['iff(result, forall("SymMon", lambda k: k not in self.dictionary))'], **C)
    r.contract(SP + '__eq__', variant='sym', params={'self': 'SymPoly', 'other': 'SymPoly'}, returns='bool', requires=['nzs(self)', 'nzs(other)'],
               ensures=['iff(result, forall("SymMon", lambda k: vc(self, k) == vc(other, k)))'], props=['C13', 'C02'])
    r.specfn('msize', {'t': T}, 'int', 'sum(t)', fuel=1)
    r.contract(SM + 'degree', params={'self': 'SymMon'}, returns='int', macro='sum(self.mu)', **C)
    r.contract(SM + '__hash__', params={'self': 'SymMon'}, returns='int', macro='hash((self.n, self.mu))', props=['C13', 'C02'])
    r.contract(SP + 'truncate', params={'self': 'SymPoly', 'degree_bound': 'int'}, returns='SymPoly', requires=['nzs(self)'],
               ensures=['forall("SymMon", lambda k: vc(result, k) == (vc(self, k) if sum(k.mu) <= degree_bound else 0))', 'nzs(result)'], **C)
    for nm, op in (('lowest', '<='), ('highest', '>=')):
        r.contract(SP + nm + '_degree_terms', params={'self': 'SymPoly'}, returns='SymPoly', requires=['nzs(self)'],
                   ensures=['forall("SymMon", lambda k: vc(result, k) == (vc(self, k) if forall("SymMon", lambda j: implies(j in self.dictionary, sum(k.mu) %s sum(j.mu))) else 0))' % op, 'nzs(result)',
                            'forall("SymMon", lambda k: implies(k in result.dictionary, k in self.dictionary))', 'iff(exists("SymMon", lambda k: k in result.dictionary), exists("SymMon", lambda k: k in self.dictionary))'], **C)
    MONP = ['smon(self)']
    r.contract(SM + 'symmetric_polynomial', params={'self': 'SymMon', 'coefficient': 'R'}, returns='SymPoly', ensures=['forall("SymMon", lambda k: vc(result, k) == (coefficient if k == self else 0))', 'nzs(result)', 'forall("SymMon", lambda k: implies(k in result.dictionary, k == self))'], **C)
    r.contract(SM + 'symmetric_polynomial', variant='int', params={'self': 'SymMon', 'coefficient': 'int'}, returns='SymPoly', ensures=['forall("SymMon", lambda k: vc(result, k) == (coefficient if k == self else 0))', 'nzs(result)', 'forall("SymMon", lambda k: implies(k in result.dictionary, k == self))'], **C)
    r.contract(SM + '__mul__', variant='mon', params={'self': 'SymMon', 'other': 'SymMon'}, returns='SymPoly', requires=['smon(self)', 'smon(other)', 'self.n == other.n'],
               ensures=['forall("SymMon", lambda k: vc(result, k) == mcoef(self, other, k))', 'nzs(result)', 'symkeys(result)'], **C)
    r.contract(SM + '__sub__', variant='mon', params={'self': 'SymMon', 'other': 'SymMon'}, returns='SymPoly',
               ensures=['forall("SymMon", lambda k: vc(result, k) == (1 if k == self else 0) - (1 if k == other else 0))', 'nzs(result)'], **C)
