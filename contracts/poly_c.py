"""Contracts on /repo/polynomials.py (C01, C02)."""
from pyvc.spec import Loop

P = 'polynomials.Polynomial.'
M = 'hdict[int,int]'
D = 'dict[%s,int]' % M


def register(r):
    d = r.define
    r.model('Polynomial', 'polynomials.Polynomial', {'coeffs': D})
    # cf(c, m): the coefficient of the monomial m in the finite map c; absent monomials have coefficient 0
    d('cf', 'c,m', 'c[m] if m in c else 0')
    d('pc', 'p,m', 'cf(p.coeffs, m)')
    # normal form: no stored zero coefficient, no stored zero exponent
    d('nfc', 'c', 'forall("%s", lambda m: implies(m in c, c[m] != 0))' % M)
    d('mono_nf', 'm', 'forall("int", lambda t: implies(t in m, m[t] != 0))')
    d('keysc', 'c', 'forall("%s", lambda m: implies(m in c, mono_nf(m)))' % M)
    d('nf', 'p', 'nfc(p.coeffs)')
    d('keys_nf', 'p', 'keysc(p.coeffs)')
    d('good', 'p', 'nf(p) and keys_nf(p)')
    d('ex', 'm,t', 'm[t] if t in m else 0')
    # product of monomials: exponents add, zero exponents disappear
    r.specfn('madd', {'a': M, 'b': M}, M, 'mapof("int", "int", lambda t: (t in a or t in b) and ex(a, t) + ex(b, t) != 0, lambda t: ex(a, t) + ex(b, t))')
    d('unit', '', 'emptymap("%s")' % M)
    d('power_of', 'i,e', 'mapof("int", "int", lambda t: t == i and e != 0, lambda t: e)')
    r.fold('mdeg', {'m': M}, 't', 'int', 'm[t]')
    # coefficient of m in the product: sum over pairs of terms
    r.fold('mrow', {'p': D, 'q': D, 'm': M, 'a': M}, 'b', M, 'p[a] * q[b] if madd(a, b) == m else 0')
    r.fold('mcol', {'p': D, 'q': D, 'm': M}, 'a', M, 'mrow(p, q, m, a, q)')
    d('pmul', 'p,q,m', 'mcol(p, q, m, p)')
    r.specfn('padd', {'p': D, 'q': D}, D, 'mapof("%s", "int", lambda m: cf(p, m) + cf(q, m) != 0, lambda m: cf(p, m) + cf(q, m))' % M)
    r.specfn('pprod', {'p': D, 'q': D}, D, 'mapof("%s", "int", lambda m: pmul(p, q, m) != 0, lambda m: pmul(p, q, m))' % M)
    r.specfn('pconst', {'c': 'int'}, D, 'mapof("%s", "int", lambda m: m == unit() and c != 0, lambda m: c)' % M)
    r.specfn('ppow', {'p': D, 'n': 'int'}, D, 'pconst(1) if n <= 0 else pprod(p, ppow(p, n - 1))')

    C01 = dict(props=['C01'])
    r.contract('polynomials.HashableDict.degree', params={'self': M}, returns='int', macro='mdeg(self, self)',
               loops=[Loop('for i in self', tag='t', inv=['d == mdeg(self, _vis_t)'])], **C01)
    r.contract(P + '__getitem__', params={'self': 'Polynomial', 'i': M}, returns='int', macro='pc(self, i)', props=['C01'])
    r.contract(P + 'nnz', params={'self': 'Polynomial'}, returns='int', ensures=['result >= 0', 'iff(result == 0, forall("%s", lambda m: pc(self, m) == 0))' % M],
               loops=[Loop('for i in self.coeffs', tag='m', inv=['nonzeros >= 0', 'iff(nonzeros == 0, forall("%s", lambda m: implies(m in _vis_m, pc(self, m) == 0)))' % M])], props=['C01'])
    r.contract(P + 'is_zero', params={'self': 'Polynomial'}, returns='bool', ensures=['iff(result, forall("%s", lambda m: pc(self, m) == 0))' % M], props=['C01'])
    r.contract(P + '__bool__', params={'self': 'Polynomial'}, returns='bool', ensures=['iff(result, exists("%s", lambda m: pc(self, m) != 0))' % M], props=['C01'])
    r.contract(P + 'constant_term', params={'self': 'Polynomial'}, returns='int', macro='pc(self, unit())', props=['C01'])
    r.contract(P + 'monomial', params={'index': 'int', 'power': 'int'}, returns='Polynomial',
               ensures=['forall("%s", lambda m: pc(result, m) == (1 if m == power_of(index, power) else 0))' % M, 'good(result)'], props=['C01'])
    r.contract(P + 'one', params={}, returns='Polynomial', ensures=['result.coeffs == pconst(1)', 'good(result)'], **C01)
    r.contract(P + 'x', params={'i': 'int'}, returns='Polynomial',
               ensures=['forall("%s", lambda m: pc(result, m) == (1 if m == power_of(i, 1) else 0))' % M, 'good(result)'], props=['C01'])
    r.contract(P + 'y', params={'i': 'int'}, returns='Polynomial',
               ensures=['forall("%s", lambda m: pc(result, m) == (1 if m == power_of(-i, 1) else 0))' % M, 'good(result)'], props=['C01'])
    addloop = [Loop('for i in other.coeffs', tag='m',
                    inv=['forall("%s", lambda m: (newcoeffs[m] if m in newcoeffs else 0) == pc(self, m) + (pc(other, m) if m in _vis_m else 0))' % M,
                         'forall("%s", lambda m: implies(m in newcoeffs, (implies(nf(self), newcoeffs[m] != 0)) and (m in self.coeffs or m in other.coeffs)))' % M])]
    r.contract(P + '__add__', variant='poly', params={'self': 'Polynomial', 'other': 'Polynomial'}, returns='Polynomial', pure=True,
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) + pc(other, m))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self) and keys_nf(other), keys_nf(result))',
                        'implies(nf(self), result.coeffs == padd(self.coeffs, other.coeffs))'], loops=addloop, **C01)
    r.contract(P + '__add__', variant='int', params={'self': 'Polynomial', 'other': 'int'}, returns='Polynomial', pure=True,
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) + (other if m == unit() else 0))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self), keys_nf(result))'],
               loops=addloop, **C01)
    r.contract(P + '__mul__', variant='poly', dec='0', params={'self': 'Polynomial', 'f': 'Polynomial'}, returns='Polynomial', pure=True,
               ensures=['forall("%s", lambda m: pc(result, m) == pmul(self.coeffs, f.coeffs, m))' % M, 'good(result)', 'result.coeffs == pprod(self.coeffs, f.coeffs)'],
               loops=[Loop('for i in self.coeffs', tag='a',
                           inv=['forall("%s", lambda m: (newcoeffs[m] if m in newcoeffs else 0) == mcol(self.coeffs, f.coeffs, m, _vis_a))' % M,
                                'forall("%s", lambda m: implies(m in newcoeffs, newcoeffs[m] != 0 and mono_nf(m)))' % M]),
                      Loop('for j in f.coeffs', tag='b', hints=['k == madd(i, j)'],
                           inv=['forall("%s", lambda m: (newcoeffs[m] if m in newcoeffs else 0) == mcol(self.coeffs, f.coeffs, m, _vis_a) + mrow(self.coeffs, f.coeffs, m, i, _vis_b))' % M,
                                'forall("%s", lambda m: implies(m in newcoeffs, newcoeffs[m] != 0 and mono_nf(m)))' % M])],
               **C01)
    # multiplying by a constant multiplies every coefficient
    r.lemma('scale_row', params={'p': D, 'q': D, 'm': M, 'a': M}, requires=['a in p', 'mono_nf(a)', 'forall("%s", lambda k: iff(k in q, k == unit()))' % M],
            ensures=['mrow(p, q, m, a, q) == (p[a] * q[unit()] if a == m else 0)'], uses=['seteq(q, store(emptyset("%s"), unit()))' % M, 'madd(a, unit()) == a'], props=['C01'])
    r.lemma('scale_col', params={'p': D, 'q': D, 'm': M, 'S': 'set[%s]' % M},
            requires=['forall("%s", lambda a: implies(a in S, a in p and mono_nf(a)))' % M, 'forall("%s", lambda k: iff(k in q, k == unit()))' % M],
            ensures=['mcol(p, q, m, S) == (p[m] * q[unit()] if m in S else 0)'], setind='S', uses=['forall("%s", lambda a: implies(a in p and mono_nf(a), scale_row(p, q, m, a)))' % M], props=['C01'])
    r.contract(P + '__mul__', variant='int', params={'self': 'Polynomial', 'f': 'int'}, returns='Polynomial', pure=True, requires=['keys_nf(self)'], dec='1', prove=['forall("%s,%s", lambda m, q: scale_col(self.coeffs, q, m, self.coeffs))' % (M, D)],
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) * f)' % M, 'good(result)'], **C01)
    r.contract(P + '__neg__', params={'self': 'Polynomial'}, returns='Polynomial', requires=['keys_nf(self)'],
               ensures=['forall("%s", lambda m: pc(result, m) == -pc(self, m))' % M, 'good(result)'], **C01)
    r.contract(P + '__sub__', variant='poly', params={'self': 'Polynomial', 'other': 'Polynomial'}, returns='Polynomial', requires=['keys_nf(other)'],
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) - pc(other, m))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    r.contract(P + '__sub__', variant='int', params={'self': 'Polynomial', 'other': 'int'}, returns='Polynomial',
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) - (other if m == unit() else 0))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    r.contract(P + '__rsub__', variant='int', params={'self': 'Polynomial', 'other': 'int'}, returns='Polynomial', requires=['keys_nf(self)'],
               ensures=['forall("%s", lambda m: pc(result, m) == (other if m == unit() else 0) - pc(self, m))' % M, 'good(result)'], **C01)
    r.contract(P + '__eq__', variant='poly', params={'self': 'Polynomial', 'other': 'Polynomial'}, returns='bool', requires=['keys_nf(other)'],
               ensures=['iff(result, forall("%s", lambda m: pc(self, m) == pc(other, m)))' % M], props=['C01', 'C02'])
    r.contract(P + '__eq__', variant='int', params={'self': 'Polynomial', 'other': 'int'}, returns='bool',
               ensures=['iff(result, forall("%s", lambda m: pc(self, m) == (other if m == unit() else 0)))' % M], props=['C01', 'C02'])
    r.contract(P + 'is_integer', params={'self': 'Polynomial'}, returns='bool',
               ensures=['iff(result, forall("%s", lambda m: implies(m != unit(), pc(self, m) == 0)))' % M], **C01)
    r.contract(P + '__mod__', params={'self': 'Polynomial', 'o': 'int'}, returns='Polynomial', requires=['o != 0'],
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) %% o)' % M, 'nf(result)', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    r.contract(P + '__floordiv__', params={'self': 'Polynomial', 'o': 'int'}, returns='Polynomial', requires=['o != 0'],
               ensures=['forall("%s", lambda m: pc(result, m) == pc(self, m) // o)' % M, 'nf(result)', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    r.contract(P + '__truediv__', params={'self': 'Polynomial', 'o': 'int'}, returns='Polynomial', requires=['o != 0'],
               raises='exists("%s", lambda m: pc(self, m) %% o != 0)' % M,
               ensures=['forall("%s", lambda m: pc(result, m) * o == pc(self, m))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    r.contract(P + 'truncate', params={'self': 'Polynomial', 'degree_bound': 'int'}, returns='Polynomial',
               ensures=['forall("%s", lambda m: pc(result, m) == (pc(self, m) if mdeg(m, m) <= degree_bound else 0))' % M, 'implies(nf(self), nf(result))', 'implies(keys_nf(self), keys_nf(result))'], **C01)
    # powers
    r.lemma('unit_power', params={'c': 'int', 'n': 'int'}, requires=['abs(c) == 1', 'n >= 0'], ensures=['c ** n == (1 if c == 1 or n % 2 == 0 else -1)'],
            dec='n', ih=['c, n - 1'], props=['C01'])
    r.contract(P + '__pow__', params={'self': 'Polynomial', 'i': 'int'}, returns='opt[Polynomial]', dec='i if i >= 0 else 0', requires=['good(self)'], prove=['forall("int,int", lambda c, n: unit_power(c, n))'],
               ensures=['implies(i >= 0, not isnone(result) and good(the(result)) and the(result).coeffs == ppow(self.coeffs, i))',
                        'implies(i < 0, iff(not isnone(result), exists("%s", lambda a: abs(self.coeffs[a]) == 1 and forall("%s", lambda k: iff(k in self.coeffs, k == a)))))' % (M, M),
                        'implies(i < 0 and not isnone(result), forall("%s", lambda a: implies(a in self.coeffs, forall("%s", lambda m: '
                        'pc(the(result), m) == ((1 if self.coeffs[a] == 1 or i %% 2 == 0 else -1) if m == mscale(a, i) else 0)))))' % (M, M)],
               loops=[Loop('for ind in self.coeffs', tag='t', inv=['forall("%s", lambda k: implies(k in _vis_t, abs(self.coeffs[k]) == 1))' % M,
                                                                  'forall("%s", lambda k: iff(k in new_coeffs, exists("%s", lambda a: a in _vis_t and k == mscale(a, i))))' % (M, M),
                                                                  'forall("%s", lambda a: implies(a in _vis_t, new_coeffs[mscale(a, i)] == self.coeffs[a] ** (-i)))' % M],
                           hints=['new_ind == mscale(ind, i)']),
                      Loop('for key in new_ind', tag='k', inv=['forall("int", lambda t: iff(t in new_ind, t in ind))',
                                                              'forall("int", lambda t: implies(t in ind, new_ind[t] == (ind[t] * i if t in _vis_k else ind[t])))'])],
               **C01)
    r.specfn('mscale', {'a': M, 'n': 'int'}, M, 'mapof("int", "int", lambda t: t in a, lambda t: a[t] * n)')
    # the coefficient of a power of one variable
    r.specfn('without', {'a': M, 't': 'int'}, M, 'mapof("int", "int", lambda s: s in a and s != t, lambda s: a[s])')
    r.specfn('withpow', {'a': M, 't': 'int', 'e': 'int'}, M, 'mapof("int", "int", lambda s: s in a or (s == t and e != 0), lambda s: e if s == t and e != 0 else a[s])')
    r.contract(P + 'coefficient', params={'self': 'Polynomial', 'index': 'int', 'power': 'int'}, returns='Polynomial', requires=['good(self)'],
               ensures=['forall("%s", lambda m: pc(result, m) == (0 if index in m else pc(self, withpow(m, index, power))))' % M, 'good(result)'],
               loops=[Loop('for term in self.coeffs', tag='t', inv=['forall("%s", lambda m: pc(x, m) == (0 if index in m else (pc(self, withpow(m, index, power)) if withpow(m, index, power) in _vis_t else 0)))' % M, 'good(x)'],
                           hints=['touch(without(term, index))', 'implies((index in term and term[index] == power) or (power == 0 and not (index in term)), withpow(without(term, index), index, power) == term)',
                                  'forall("%s", lambda m: implies(withpow(m, index, power) == term and index not in m, m == without(term, index)))' % M])],
               **C01)
    r.contract(P + 'total_degree', params={'self': 'Polynomial'}, returns='opt[int]',
               ensures=['iff(isnone(result), forall("%s", lambda m: m not in self.coeffs))' % M,
                        'implies(not isnone(result), exists("%s", lambda m: m in self.coeffs and mdeg(m, m) == the(result)) and forall("%s", lambda m: implies(m in self.coeffs, mdeg(m, m) <= the(result))))' % (M, M)],
               loops=[Loop('for ind in self.coeffs', tag='t', inv=['iff(isnone(ans), forall("%s", lambda m: m not in _vis_t))' % M,
                        'implies(not isnone(ans), exists("%s", lambda m: m in _vis_t and mdeg(m, m) == the(ans)) and forall("%s", lambda m: implies(m in _vis_t, mdeg(m, m) <= the(ans))))' % (M, M)])], **C01)
    r.contract(P + 'zero', params={}, returns='Polynomial', ensures=['forall("%s", lambda m: pc(result, m) == 0)' % M, 'good(result)'], **C01)
    r.contract(P + '__ne__', variant='poly', params={'self': 'Polynomial', 'other': 'Polynomial'}, returns='bool', requires=['keys_nf(other)'],
               ensures=['iff(result, exists("%s", lambda m: pc(self, m) != pc(other, m)))' % M], props=['C01', 'C02'])
    r.contract('polynomials.X', params={'i': 'opt[int]'}, returns='Polynomial', requires=['implies(not isnone(i), the(i) >= 0)'],
               ensures=['forall("%s", lambda m: pc(result, m) == (1 if m == power_of(2**64 - 1 if isnone(i) else the(i), 1) else 0))' % M, 'good(result)'], props=['C01'])
    r.contract('polynomials.Y', params={'i': 'opt[int]'}, returns='Polynomial', requires=['implies(not isnone(i), the(i) <= 0)'],
               ensures=['forall("%s", lambda m: pc(result, m) == (1 if m == power_of(1 - 2**64 if isnone(i) else the(i), 1) else 0))' % M, 'good(result)'], props=['C01'])
