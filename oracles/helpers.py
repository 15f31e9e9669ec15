"""Views of the real objects as plain data, used inside expressions as H.*"""


def mono(m):
    assert all(type(k) is int and type(v) is int for k, v in m.items()), m
    assert all(v != 0 for v in m.values()), 'zero exponent in %r' % (dict(m),)
    return tuple(sorted(m.items()))


def poly(p, canon=True):
    """dict {sorted monomial: coefficient}; an int counts as a constant."""
    if isinstance(p, int):
        return {(): p} if p else {}
    assert type(p).__name__ == 'Polynomial', type(p)
    out = {}
    for k, v in p.coeffs.items():
        assert type(v) is int
        assert v != 0 or not canon, 'zero coefficient at %r' % (dict(k),)
        if v:
            m = mono(k)
            assert m not in out, 'monomial stored twice'
            out[m] = v
    # every stored monomial is found again
    for k, v in p.coeffs.items():
        assert p.coeffs[k] == v and p[dict(k)] == v
    return out


def poly_raw(p):
    """Stored representation, order included only for immutability checks."""
    return [(dict(k), v) for k, v in p.coeffs.items()]


def vec(v):
    """{key: plain coefficient} of a vector; asserts that no zero is stored."""
    out = {}
    if isinstance(v, int) and v == 0:
        return out
    for k, c in v.dictionary.items():
        pc = poly(c)
        assert pc, 'zero coefficient at %r' % (k,)
        assert v[k] == c
        if set(pc) == {()}:
            pc = pc[()]
        out[k] = pc
    return out


def same(a, b):
    """Equal, hashing equally, and interchangeable as dictionary keys."""
    return (a == b, b == a, not (a != b), hash(a) == hash(b), {a: 1}.get(b), {b: 1}.get(a), len({a, b})) == (True, True, True, True, 1, 1, 1)


def differ(a, b):
    return (a == b, b == a, a != b, {a: 1}.get(b), len({a, b})) == (False, False, True, None, 2)


def tab(t):
    """Boxes of a tableau as plain data."""
    return {k: v for k, v in t.boxes.items()}


def prod(xs):
    ans = 1
    for x in xs:
        ans = x * ans
    return ans


def key(t):
    return tuple(sorted(t.boxes.items()))


def strings(edges, x, i):
    """(how often the edge i can be followed from x, and backwards)"""
    f = {a: b for a, b, j in edges if j == i}
    e = {b: a for a, b, j in edges if j == i}
    out = []
    for m in (f, e):
        k, y = 0, x
        while y in m and k <= len(edges):
            k, y = k + 1, m[y]
        out.append(k)
    return tuple(out)


def iterate(f, x, bound=1000):
    k = 0
    while k < bound:
        x = f(x)
        if x is None:
            return k
        k += 1
    return k
