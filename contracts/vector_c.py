"""Contracts on /repo/vectors.py (C03, C02).  K: basis keys, R: the commutative ring of coefficients
(integers or polynomials), MF: basis multiplication rules, PF: printers."""
from pyvc.spec import Loop

V = 'vectors.Vector.'
D = 'dict[K,R]'


def vec_instance(r, name, K, R, props, scalars=()):
    """The vector contracts for another type of keys and coefficients, proved again for it."""
    D = 'dict[%s,%s]' % (K, R)
    C = dict(props=props)
    zero = '0'
    r.model(name, 'vectors.Vector', {'dictionary': D, 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'})
    r.define('nz' + name, 'v', 'forall("%s", lambda k: implies(k in v.dictionary, v.dictionary[k] != 0))' % K)
    nz, t = 'nz%s(%%s)' % name, name.lower()
    r.contract(V + '__init__', variant=t, params={'dictionary': D, 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'}, returns=name,
               ensures=['forall("%s", lambda k: vc(result, k) == kc(dictionary, k))' % K, nz % 'result', 'result.printer == printer', 'result.multiplier == multiplier'], **C)
    r.contract(V + '__getitem__', variant=t, params={'self': name, 'item': K}, returns=R, macro='vc(self, item)', **C)
    r.contract(V + '__len__', variant=t, params={'self': name}, returns='int', macro='card(self.dictionary)', **C)
    r.contract(V + '__eq__', variant=t + '_zero', params={'self': name, 'other': '=0'}, returns='bool', ensures=['iff(result, forall("%s", lambda k: k not in self.dictionary))' % K], **C)
    r.contract(V + '__sub__', variant=t + '_zero', params={'self': name, 'other': '=0'}, returns=name, macro='self', **C)
    r.contract(V + '__add__', variant=t + '_zero', params={'self': name, 'other': '=0'}, returns=name, macro='self', **C)
    for nm, op in (('__add__', '+'), ('__sub__', '-')):
        r.contract(V + nm, variant=t, params={'self': name, 'other': name}, returns=name, requires=[nz % 'self', nz % 'other'],
                   ensures=['forall("%s", lambda k: vc(result, k) == vc(self, k) %s vc(other, k))' % (K, op), nz % 'result'], **C)
    r.contract(V + '__eq__', variant=t, params={'self': name, 'other': name}, returns='bool', requires=[nz % 'self', nz % 'other'],
               ensures=['iff(result, forall("%s", lambda k: vc(self, k) == vc(other, k)))' % K], **C)
    for s in scalars:
        for nm in ('__mul__', '__rmul__'):
            r.contract(V + nm, variant='%s_%s' % (t, s), params={'self': name, 'other': s}, returns=name, requires=[nz % 'self'],
                       ensures=['forall("%s", lambda k: vc(result, k) == vc(self, k) * other)' % K, nz % 'result'], **C)


def register(r):
    d = r.define
    r.absfn('MF', ['K', 'K'], 'list[tup[K,int]]')
    r.model('Vector', 'vectors.Vector', {'dictionary': D, 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'})
    d('kc', 'D,k', 'D[k] if k in D else 0')
    d('vc', 'v,k', 'kc(v.dictionary, k)')
    d('nzv', 'v', 'forall("K", lambda k: implies(k in v.dictionary, v.dictionary[k] != 0))')
    C = dict(props=['C03'])
    r.contract(V + '__init__', params={'dictionary': D, 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'}, returns='Vector',
               ensures=['forall("K", lambda k: vc(result, k) == kc(dictionary, k))', 'nzv(result)', 'result.printer == printer', 'result.multiplier == multiplier'], **C)
    r.contract(V + '__getitem__', params={'self': 'Vector', 'item': 'K'}, returns='R', macro='vc(self, item)', **C)
    r.contract(V + '__len__', params={'self': 'Vector'}, returns='int', macro='card(self.dictionary)', **C)
    r.contract(V + 'is_zero', params={'self': 'Vector'}, returns='bool', ensures=['iff(result, forall("K", lambda k: k not in self.dictionary))'], **C)
    r.contract(V + '__eq__', variant='zero', params={'self': 'Vector', 'other': '=0'}, returns='bool',
               ensures=['iff(result, forall("K", lambda k: k not in self.dictionary))'], props=['C03', 'C02'])
    r.contract(V + '__sub__', variant='zero', params={'self': 'Vector', 'other': '=0'}, returns='Vector', macro='self', **C)
    for nm, op in (('__add__', '+'), ('__sub__', '-')):
        r.contract(V + nm, variant='vector', params={'self': 'Vector', 'other': 'Vector'}, returns='Vector', requires=['nzv(self)', 'nzv(other)'],
                   ensures=['forall("K", lambda k: vc(result, k) == vc(self, k) %s vc(other, k))' % op, 'nzv(result)'], **C)
    r.contract(V + '__eq__', variant='vector', params={'self': 'Vector', 'other': 'Vector'}, returns='bool', requires=['nzv(self)', 'nzv(other)'],
               ensures=['iff(result, forall("K", lambda k: vc(self, k) == vc(other, k)))'], props=['C03', 'C02'])

    # products: the multiplication rule of the basis (or the product of keys when there is none)
    d('mterms', 'v,a,b', 'the(v.multiplier)(a, b) if not isnone(v.multiplier) else [(a * b, 1)]')
    r.specfn('lsum', {'s': 'list[tup[K,int]]', 'm': 'K', 'n': 'int'}, 'R', '0 if n <= 0 else lsum(s, m, n - 1) + (s[n - 1][1] if s[n - 1][0] == m else 0)')
    r.fold('vrow', {'p': 'Vector', 'q': 'Vector', 'm': 'K', 'a': 'K'}, 'b', 'K', 'p.dictionary[a] * q.dictionary[b] * lsum(mterms(p, a, b), m, len(mterms(p, a, b)))', rty='R')
    r.fold('vcol', {'p': 'Vector', 'q': 'Vector', 'm': 'K'}, 'a', 'K', 'vrow(p, q, m, a, q.dictionary)', rty='R')
    r.contract(V + '__mul__', variant='ring', params={'self': 'Vector', 'other': 'R'}, returns='Vector', requires=['nzv(self)'],
               ensures=['forall("K", lambda k: vc(result, k) == vc(self, k) * other)', 'nzv(result)'], **C)
    r.contract(V + '__mul__', variant='int', params={'self': 'Vector', 'other': 'int'}, returns='Vector', requires=['nzv(self)'],
               ensures=['forall("K", lambda k: vc(result, k) == vc(self, k) * other)', 'nzv(result)'], **C)
    r.contract(V + '__mul__', variant='vector', params={'self': 'Vector', 'other': 'Vector'}, returns='Vector', requires=['nzv(self)', 'nzv(other)'],
               ensures=['forall("K", lambda k: vc(result, k) == vcol(self, other, k, self.dictionary))', 'nzv(result)'],
               loops=[Loop('for a, x in self.items()', tag='a', types={'ans': D}, inv=['forall("K", lambda k: kc(ans, k) == vcol(self, other, k, _vis_a))']),
                      Loop('for b, y in other.items()', tag='b', types={'ans': D}, inv=['forall("K", lambda k: kc(ans, k) == vcol(self, other, k, _vis_a) + vrow(self, other, k, a, _vis_b))']),
                      Loop('for m, coeff in self.multiplier(a, b) if self.multiplier else [(a * b, 1)]', tag='m', types={'ans': D},
                           inv=['forall("K", lambda k: kc(ans, k) == vcol(self, other, k, _vis_a) + vrow(self, other, k, a, _vis_b) + x * y * lsum(_s_m, k, _i_m))'])], **C)
    r.contract(V + '__neg__', params={'self': 'Vector'}, returns='Vector', requires=['nzv(self)'],
               ensures=['forall("K", lambda k: vc(result, k) == -vc(self, k))', 'nzv(result)'], **C)
    r.contract(V + '__add__', variant='zero', params={'self': 'Vector', 'other': '=0'}, returns='Vector', macro='self', **C)
    r.contract(V + '__radd__', variant='zero', params={'self': 'Vector', 'other': '=0'}, returns='Vector', macro='self', **C)
    r.contract(V + '__radd__', variant='vector', params={'self': 'Vector', 'other': 'Vector'}, returns='Vector', requires=['nzv(self)', 'nzv(other)'],
               ensures=['forall("K", lambda k: vc(result, k) == vc(other, k) + vc(self, k))', 'nzv(result)'], **C)
    for nm, t in (('ring', 'R'), ('int', 'int')):
        r.contract(V + '__rmul__', variant=nm, params={'self': 'Vector', 'other': t}, returns='Vector', requires=['nzv(self)'],
                   ensures=['forall("K", lambda k: vc(result, k) == vc(self, k) * other)', 'nzv(result)'], **C)
    r.contract(V + 'base', params={'key': 'K', 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'}, returns='Vector',
               ensures=['forall("K", lambda k: vc(result, k) == (1 if k == key else 0))', 'nzv(result)', 'result.multiplier == multiplier'], **C)
    # vectors with integer coefficients
    r.model('IVector', 'vectors.Vector', {'dictionary': 'dict[K,int]', 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'})
    r.contract(V + 'is_singleton', params={'self': 'IVector'}, returns='bool',
               ensures=['iff(result, exists("K", lambda a: forall("K", lambda k: iff(k in self.dictionary, k == a)) and self.dictionary[a] == 1))'], **C)
    r.contract(V + 'is_nonnegative', params={'self': 'IVector'}, returns='bool',
               ensures=['iff(result, forall("K", lambda k: implies(k in self.dictionary, self.dictionary[k] > 0)))'], **C)
    r.contract(V + 'is_zero', variant='int', params={'self': 'IVector'}, returns='bool', ensures=['iff(result, forall("K", lambda k: k not in self.dictionary))'], **C)
    r.contract(V + 'is_positive', params={'self': 'IVector'}, returns='bool',
               ensures=['iff(result, exists("K", lambda k: k in self.dictionary) and forall("K", lambda k: implies(k in self.dictionary, self.dictionary[k] > 0)))'], **C)
    r.contract(V + '__floordiv__', params={'self': 'IVector', 'other': 'int'}, returns='IVector', requires=['other != 0', 'nzv(self)'],
               ensures=['forall("K", lambda k: kc(result.dictionary, k) == kc(self.dictionary, k) // other)', 'nzv(result)'], **C)
