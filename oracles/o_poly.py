import itertools
from .base import group

# ---- reference: polynomials as {sorted monomial: int} ----


def clean(d):
    return {k: v for k, v in d.items() if v}


def con(c):
    return {(): c} if c else {}


def var(i, e=1):
    return {((i, e),): 1} if e else {(): 1}


def add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return clean(out)


def mmul(x, y):
    d = dict(x)
    for k, e in y:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def mul(a, b):
    out = {}
    for x, c in a.items():
        for y, d in b.items():
            m = mmul(x, y)
            out[m] = out.get(m, 0) + c * d
    return clean(out)


def power(a, n):
    if n < 0:
        (m, c), = a.items()
        assert c in (1, -1)
        return {tuple((k, e * n) for k, e in m): c if n % 2 else 1}
    out = con(1)
    for _ in range(n):
        out = mul(out, a)
    return out


def degree(m):
    return sum(e for _, e in m)


class R:
    """Reference value; the same expression strings run on it and on the real classes."""
    def __init__(self, d):
        self.d = clean(d)

    def lift(o):
        return o if isinstance(o, R) else R(con(o))

    def __add__(s, o): return R(add(s.d, R.lift(o).d))
    __radd__ = __add__
    def __sub__(s, o): return R(add(s.d, R.lift(o).d, -1))
    def __rsub__(s, o): return R(add(R.lift(o).d, s.d, -1))
    def __neg__(s): return R(add({}, s.d, -1))
    def __mul__(s, o): return R(mul(s.d, R.lift(o).d))
    __rmul__ = __mul__
    def __pow__(s, n): return R(power(s.d, n))
    def __xor__(s, o): return s + o + R(var(0)) * s * o
    def coefficient(s, i, p): return R({tuple((k, e) for k, e in m if k != i): c for m, c in s.d.items() if dict(m).get(i, 0) == p})
    def truncate(s, b): return R({m: c for m, c in s.d.items() if degree(m) <= b})
    def __mod__(s, o): return R({m: c % o for m, c in s.d.items()})
    def __floordiv__(s, o): return R({m: c // o for m, c in s.d.items()})
    def substitute(s, i, e):
        out = R({})
        for m, c in s.d.items():
            out = out + R({tuple((k, x) for k, x in m if k != i): c}) * R.lift(e) ** dict(m).get(i, 0)
        return out
    def __call__(s, x):
        out = R({})
        for m, c in s.d.items():
            f = R(con(c))
            for k, e in m:
                f = f * (R.lift(x[k]) ** e if k in x else R(var(k, e)))
            out = out + f
        return out


def expr(rng, depth, neg=True):
    if depth == 0 or rng.random() < .12:
        c = rng.random()
        if c < .75:
            return rng.choice(['beta', 'X(1)', 'X(2)', 'X(3)', 'X()', 'Y()', 'Y(-1)', 'Polynomial.y(2)', 'Polynomial.x(4)', 'Polynomial.monomial(1, 2)'] + (['Polynomial.monomial(2, -1)', 'Polynomial.monomial(0, -2)'] if neg else []))
        return rng.choice(['Polynomial.one()', 'Polynomial.zero()', 'Polynomial.monomial(3, 0)', '(Polynomial.one() * %d)' % rng.randint(-3, 3)])
    a = expr(rng, depth - 1, neg)
    k = rng.randrange(16)
    if k < 4:
        return '(%s + %s)' % (a, expr(rng, depth - 1, neg))
    if k < 6:
        return '(%s - %s)' % (a, expr(rng, depth - 1, neg))
    if k < 9:
        return '(%s * %s)' % (a, expr(rng, depth - 1, neg))
    if k == 9:
        return '(%s ^ %s)' % (a, expr(rng, depth - 1, neg))
    if k == 10:
        return '(%s ** %d)' % (a, rng.randint(0, 3))
    if k == 11:
        return '(-%s)' % a
    c = rng.randint(-4, 4)
    return rng.choice(['(%d - %s)' % (c, a), '(%s + %d)' % (a, c), '(%d * %s)' % (c, a), '(%s * %d)' % (a, c), '(%d + %s)' % (c, a), '(%s - %d)' % (a, c), '(%s - %s)' % (a, a)])


class P0:
    MAX, MIN = 2**64 - 1, -(2**64 - 1)
    def monomial(i, p=1): return R(var(i, p))
    def one(): return R(con(1))
    def zero(): return R({})
    def x(i): return R(var(i))
    def y(i): return R(var(-i))


REF = {'beta': R(var(0)), 'X': lambda i=P0.MAX: R(var(i)), 'Y': lambda i=P0.MIN: R(var(i)), 'Polynomial': P0}


def ref(e):
    return eval(e, REF).d


@group('C01', limit=60)
def arithmetic(t):
    for n in range(700 if not t.deep else 6000):
        d = t.rng.choice([1, 2, 2, 3, 3, 4])
        e = expr(t.rng, d)
        r = ref(e)
        if len(r) > 60:
            continue
        t.eq('H.poly(%s)' % e, r)
        i = t.rng.choice([0, 1, 2, 3, -1])
        for p in (-1, 0, 1, 2):
            t.eq('H.poly((%s).coefficient(%d, %d))' % (e, i, p), ref('(%s).coefficient(%d, %d)' % (e, i, p)))
        b = t.rng.randint(-2, 6)
        t.eq('H.poly((%s).truncate(%d))' % (e, b), ref('(%s).truncate(%d)' % (e, b)))
        m = t.rng.choice([1, 2, 3, 5, -2])
        t.eq('H.poly((%s) %% %d)' % (e, m), ref('(%s) %% %d' % (e, m)))
        t.eq('H.poly((%s) // %d)' % (e, m), ref('(%s) // %d' % (e, m)))
        t.eq('H.poly((%s * %d) / %d)' % (e, m, m), r)
        t.eq('bool(%s)' % e, bool(r))
        t.eq('(%s).is_zero()' % e, not r)
        t.eq('(%s).constant_term()' % e, r.get((), 0))
        mons = list(r)[:3] + [((1, 1),), (), ((0, 1), (2, 1))]
        for mm in mons:
            t.eq('(%s)[%r]' % (e, dict(mm)), r.get(mm, 0))
        t.eq('(%s).total_degree()' % e, max([degree(k) for k in r]) if r else None)


@group('C01', limit=60)
def substitution(t):
    for n in range(150 if not t.deep else 1500):
        e = expr(t.rng, t.rng.choice([1, 2, 3]), neg=False)
        f = expr(t.rng, t.rng.choice([0, 1, 2]), neg=False)
        r = ref(e)
        if len(r) > 30 or max([degree(k) for k in r] + [0]) > 7 or len(ref(f)) > 8:
            continue
        i = t.rng.choice([0, 1, 2, 3])
        t.eq('H.poly((%s).substitute(%d, %s))' % (e, i, f), ref('(%s).substitute(%d, %s)' % (e, i, f)))
        t.eq('H.poly((%s)({%d: %s, 2: X(3), 0: 2}))' % (e, 1, f), ref('(%s)({%d: %s, 2: X(3), 0: 2})' % (e, 1, f)))
        t.eq('H.poly((%s)({}))' % e, r)


@group('C01', limit=60)
def inverse_powers(t):
    for e, s in itertools.product([((1, 1),), ((0, 1),), ((0, 2), (3, -1)), (), ((1, -2), (2, 1))], (1, -1)):
        src = '(%d * %s)' % (s, ' * '.join(['Polynomial.monomial(%d, %d)' % p for p in e] or ['Polynomial.one()']))
        for n in range(-5, 6):
            t.eq('H.poly(%s ** %d)' % (src, n), ref('%s ** %d' % (src, n)))


@group('C01', limit=60)
def operands(t):
    ops = ['a + b', 'a - b', 'a * b', 'a ^ b', '-a', 'a ** 2', 'a + 3', '3 - a', '2 * a', 'a % 3', 'a // 2', 'a.truncate(2)', 'a.coefficient(1, 1)', 'a.coefficient(1, 0)',
           'a == b', 'hash(a)', 'str(a)', 'a.substitute(1, b)', 'a({1: b})', 'bool(a)', 'a.total_degree()', 'X(1) ** -2', 'a[{1: 1}]', 'a - a', 'a * 0', 'a.coefficient(1, 1) + b']
    for n in range(60 if not t.deep else 400):
        a, b = expr(t.rng, 2, False), expr(t.rng, 2, False)
        if max([degree(k) for k in ref(a)] + [0]) > 4:
            continue
        for op in ops:
            t.eq('(lambda a, b: (H.poly_raw(a), H.poly_raw(b)) == (lambda p, q, r: (p, q))(H.poly_raw(a), H.poly_raw(b), %s) and '
                 '(lambda p, q, r: p == H.poly_raw(a) and q == H.poly_raw(b))(H.poly_raw(a), H.poly_raw(b), %s))(%s, %s)' % (op, op, a, b), True)
        # the shared zero constructor stays zero
        t.eq('H.poly(Polynomial())', {})


@group('C02', limit=60)
def poly_equality(t):
    for n in range(300 if not t.deep else 3000):
        k = t.rng.randint(2, 4)
        parts = [expr(t.rng, t.rng.choice([0, 1, 2])) for _ in range(k)]
        if any(len(ref(p)) > 8 for p in parts):
            continue
        other = parts[:]
        t.rng.shuffle(other)
        for op in ('+', '*'):
            a, b = (' %s ' % op).join('(%s)' % p for p in parts), (' %s ' % op).join('(%s)' % p for p in other)
            ra = ref(a)
            t.true('H.same(%s, %s)' % (a, b))
            t.true('H.same(%s, (%s) + X(2) - X(2))' % (a, b))
            t.true('H.same((%s) * 2 - (%s), %s)' % (a, a, b))
            t.true('H.differ(%s, (%s) + X(2))' % (a, b))
            t.true('H.differ(%s, (%s) + 1)' % (a, b))
            if ra:
                t.true('H.differ(%s, -(%s))' % (a, b))
            c = t.rng.randint(-2, 2)
            t.eq('((%s) == %d, (%s) != %d)' % (a, c, a, c), (ra == con(c), ra != con(c)))
            if ra == con(ra.get((), 0)):
                t.true('H.same(%s, %d)' % (a, ra.get((), 0)))


def vexpr(rng, depth, polys):
    if depth == 0:
        ks = [rng.choice(['(1,)', '(2,)', '(1, 1)', '()', '(2, 1)']) for _ in range(rng.randint(0, 3))]
        coef = (lambda: rng.choice(['1', '-1', '2', '3', 'beta', '-beta', '(beta + X(1))', '(X(1) + beta)', '(beta - 1)'])) if polys else (lambda: str(rng.randint(-3, 3)))
        return 'V({%s})' % ', '.join('%s: %s' % (k, coef()) for k in dict.fromkeys(ks))
    a = vexpr(rng, depth - 1, polys)
    k = rng.randrange(9)
    if k < 3:
        return '(%s + %s)' % (a, vexpr(rng, depth - 1, polys))
    if k < 6:
        return '(%s - %s)' % (a, vexpr(rng, depth - 1, polys))
    if k == 6:
        return '(-%s)' % a
    c = rng.choice(['beta', '(beta + 1)', '-2', '3']) if polys else str(rng.randint(-3, 3))
    return rng.choice(['(%s * %s)', '(%s * (%s))']) % ((a, c)) if rng.random() < .5 else '((%s) * %s)' % (c, a)


class RV:
    """Reference vectors: {key: R}."""
    def __init__(s, d):
        s.d = {k: R.lift(v) for k, v in d.items()}
        s.d = {k: v for k, v in s.d.items() if v.d}
    def __add__(s, o):
        return RV({k: s.d.get(k, R({})) + o.d.get(k, R({})) for k in {**s.d, **o.d}})
    def __sub__(s, o):
        return RV({k: s.d.get(k, R({})) - o.d.get(k, R({})) for k in {**s.d, **o.d}})
    def __neg__(s):
        return RV({k: -v for k, v in s.d.items()})
    def __mul__(s, o):
        if isinstance(o, RV):
            out = RV({})
            for a, x in s.d.items():
                for b, y in o.d.items():
                    for m, c in rmult(a, b):
                        out = out + RV({m: x * y * c})
            return out
        return RV({k: v * o for k, v in s.d.items()})
    __rmul__ = __mul__
    def __pow__(s, n):
        out = s
        for _ in range(n - 1):
            out = out * s
        return out
    def plain(s):
        return {k: (v.d[()] if set(v.d) == {()} else v.d) for k, v in s.d.items()}


class RPoly(R):
    def __mul__(s, o):
        return o.__rmul__(s) if isinstance(o, RV) else R.__mul__(s, o)


def rmult(a, b):
    return [(a + b, 1), (b + a, 2), (tuple(sorted(a + b)), -1)]


MULT = '(lambda a, b: [(a + b, 1), (b + a, 2), (tuple(sorted(a + b)), -1)])'


class RR(R):
    pass


def vref(e):
    ns = dict(REF)
    ns['V'] = RV

    class B(R):
        def __mul__(s, o):
            return NotImplemented if isinstance(o, RV) else B(R.__mul__(s, o).d)
        def __add__(s, o): return B(R.__add__(s, o).d)
        def __sub__(s, o): return B(R.__sub__(s, o).d)
        def __neg__(s): return B(R.__neg__(s).d)
        __radd__ = __add__
        __rmul__ = __mul__
    ns['beta'] = B(var(0))
    ns['X'] = lambda i: B(var(i))
    return eval(e, ns)


@group('C03', limit=60)
def vectors(t):
    for n in range(500 if not t.deep else 4000):
        polys = t.rng.random() < .4
        e = vexpr(t.rng, t.rng.choice([0, 1, 2, 3]), polys)
        r = vref(e)
        t.eq('(lambda V: H.vec(%s))(Vector)' % e, r.plain())
        t.eq('(lambda V: len(%s))(Vector)' % e, len(r.d))
        t.eq('(lambda V: (%s).is_zero())(Vector)' % e, not r.d)
        t.eq('(lambda V: ((%s) + 0, 0 + (%s), (%s) - 0) == (%s, %s, %s))(Vector)' % ((e,) * 6), True)
        t.eq("(lambda V: ((%s)[(9, 9)], sorted((%s).keys())))(Vector)" % (e, e), (0, sorted(r.d)))
        f = vexpr(t.rng, 1, polys)
        t.eq('(lambda V: H.vec((%s) * (%s)))(lambda d: Vector(d, multiplier=%s))' % (e, f, MULT), vref('(%s) * (%s)' % (e, f)).plain())
        if len(r.d) < 4:
            for p in (1, 2, 3):
                t.eq('(lambda V: H.vec((%s) ** %d))(lambda d: Vector(d, multiplier=%s))' % (e, p, MULT), vref('(%s) ** %d' % (e, p)).plain())
        t.eq('(lambda V: H.vec((%s) * (1, 2)))(lambda d: Vector(d, multiplier=(lambda a, b: [(a + b, 1)])))' % e, RV({k + (1, 2): v for k, v in r.d.items()}).plain())
    for n in range(100):
        a = {t.rng.randint(-3, 3): t.rng.randint(-2, 2) for _ in range(3)}
        b = {t.rng.randint(-3, 3): t.rng.randint(-2, 2) for _ in range(3)}
        out = {}
        for x in a:
            for y in b:
                out[x * y] = out.get(x * y, 0) + a[x] * b[y]
        t.eq('H.vec(Vector(%r) * Vector(%r))' % (a, b), {k: v for k, v in out.items() if v})
    t.eq('H.vec(Vector.base((2, 1)))', {(2, 1): 1})
    t.eq('H.vec(Vector())', {})


@group('C03', limit=60)
def vector_operands(t):
    ops = ['a + b', 'a - b', 'a * b', '-a', 'a * 3', '3 * a', 'beta * a', 'a * beta', 'a ** 2', 'a == b', 'hash(a)', 'str(a)', 'a + 0', 'a[(1,)]', 'a - a', 'a.is_zero()', 'list(a.items())', 'a // 2 if all(type(c) == int for c in a.values()) else 0']
    for n in range(60 if not t.deep else 500):
        polys = t.rng.random() < .4
        a, b = vexpr(t.rng, 1, polys), vexpr(t.rng, 1, polys)
        ra, rb = vref(a).plain(), vref(b).plain()
        for op in ops:
            t.eq('(lambda V: (lambda a, b: ((%s) and 0, H.vec(a), H.vec(b))[1:])(%s, %s))(lambda d: Vector(d, multiplier=(lambda a, b: [(a + b, 1)])))' % (op, a, b), (ra, rb))


@group('C02', limit=60)
def vector_equality(t):
    for n in range(300 if not t.deep else 3000):
        polys = t.rng.random() < .5
        a, b, c = (vexpr(t.rng, t.rng.choice([0, 1]), polys) for _ in range(3))
        w = '(lambda V: %s)(Vector)'
        t.true(w % 'H.same((%s) + (%s) + (%s), (%s) + (%s) + (%s))' % (a, b, c, c, b, a))
        t.true(w % 'H.same((%s) - (%s), -((%s) - (%s)))' % (a, b, b, a))
        t.true(w % 'H.same((%s) * 2 - (%s), %s)' % (a, a, a))
        t.true(w % 'H.same(%s, Vector(dict(reversed(list((%s).items())))))' % (a, a))
        t.true(w % 'H.differ(%s, (%s) + V({(7,): 1}))' % (a, a))
        if vref(a).d:
            t.true(w % 'H.differ(%s, -(%s))' % (a, a))
        # the printer and the multiplier are not part of the value
        t.true(w % 'H.same(%s, Vector(dict((%s).items()), printer=lambda k: "k%%s" %% (k,)))' % (a, a))


def rank(rows):
    from fractions import Fraction
    rows = [[Fraction(x) for x in r] for r in rows]
    r = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            f = rows[i][c] / rows[r][c]
            rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


@group('C03', limit=60)
def expressable(t):
    for n in range(300 if not t.deep else 4000):
        k = t.rng.randint(0, 4)
        dim = t.rng.randint(1, 5)
        vs = [{i: t.rng.randint(-3, 3) * t.rng.randint(0, 1) for i in range(dim)} for _ in range(k)]
        if t.rng.random() < .5:
            cs = [t.rng.randint(-2, 2) for _ in vs]
            w = {i: sum(c * v[i] for c, v in zip(cs, vs)) for i in range(dim)}
        else:
            w = {i: t.rng.randint(-3, 3) for i in range(dim)}
        A = [[v[i] for i in range(dim)] for v in vs]
        want = (rank(A) if A else 0) == rank(A + [[w[i] for i in range(dim)]])
        t.eq('Vector(%r).is_expressable(*[Vector(d) for d in %r])' % (w, vs), want)
