"""Equal values hash equal (C02): laws over the real __hash__ and __eq__."""
M = 'hdict[int,int]'


def register(r):
    C = dict(props=['C02'])
    # monomials: equal dictionaries hash equal, in whatever order they were filled
    r.client('monomial_hash', mod='polynomials', params={'a': M, 'b': M}, code='h = hash(a)\nk = hash(b)', requires=['a == b'], ensures=['h == k'], **C)
    r.client('polynomial_hash', mod='polynomials', params={'p': 'Polynomial', 'q': 'Polynomial'}, requires=['keys_nf(p)', 'keys_nf(q)'],
             code='e = p == q\nh = hash(p)\nk = hash(q)', ensures=['implies(e, h == k)', 'iff(e, forall("%s", lambda m: pc(p, m) == pc(q, m)))' % M], **C)
    r.client('polynomial_int_hash', mod='polynomials', params={'p': 'Polynomial', 'n': 'int'}, requires=['keys_nf(p)'],
             code='e = p == n\nh = hash(p)\nk = hash(n)', ensures=['implies(e, h == k)'], **C)
    r.client('vector_hash', mod='vectors', params={'p': 'Vector', 'q': 'Vector'}, requires=['nzv(p)', 'nzv(q)'],
             code='e = p == q\nh = hash(p)\nk = hash(q)', ensures=['implies(e, h == k)', 'iff(e, forall("K", lambda m: vc(p, m) == vc(q, m)))'], **C)
