import itertools
from .base import group
from .mathdefs import *
from .o_poly import add, mul, var, power, con, clean


def corners(mu):
    S = shboxes(mu)
    rem = {}
    for (i, j) in S:
        if (i + 1, j) not in S and (i, j + 1) not in S:
            rem[j - i] = i
    out = {}
    for i in range(1, len(mu) + 2):
        nu = list(mu) + [0]
        nu[i - 1] += 1
        nu = strip0(nu)
        if is_strict(nu) and all(nu[:i]):
            out[i - 1 + nu[i - 1] - 1 - (i - 1)] = (i, nu)
    return rem, out


BETA = var(0)


def vadd(a, b):
    out = {k: v if isinstance(v, dict) else con(v) for k, v in a.items()}
    for k, v in b.items():
        out[k] = clean(add(out.get(k, {}), v))
    return {k: v for k, v in out.items() if v}


def smul(c, a):
    return {k: clean(mul(c, v)) for k, v in a.items()}


def lin(f, a):
    out = {}
    for mu, c in a.items():
        out = vadd(out, smul(c, f(mu)))
    return out


def add_op(d):
    def f(mu):
        rem, out = corners(mu)
        if d in rem:
            return {mu: BETA}
        for i in range(1, len(mu) + 2):
            nu = strip0(tuple(mu[:i - 1]) + ((mu[i - 1] if i <= len(mu) else 0) + 1,) + tuple(mu[i:]))
            if is_strict(nu) and nu[i - 1] - 1 == d and len(nu) >= i:
                return {nu: con(1)}
        return {}
    return f


def nbeta(e):
    p = con(1)
    for _ in range(e):
        p = mul(p, mul(con(-1), BETA))
    return p


def row_remove(d):
    def f(mu):
        rem, _ = corners(mu)
        out, e = {}, 0
        if d not in rem:
            return out
        i = rem[d]
        nu = list(mu)
        while nu[i - 1] > 0:
            nu[i - 1] -= 1
            p = strip0(nu)
            if not is_strict(p):
                break
            out = vadd(out, {p: nbeta(e)})
            e += 1
        return out
    return f


def col_remove(d):
    def f(mu):
        rem, _ = corners(mu)
        out, e = {}, 0
        if d not in rem:
            return out
        i = rem[d]
        nu = list(mu)
        col = i - 1 + mu[i - 1]
        while i >= 1 and i - 1 + nu[i - 1] == col:
            nu[i - 1] -= 1
            p = strip0(nu)
            if not is_strict(p):
                break
            out = vadd(out, {p: nbeta(e)})
            e += 1
            i -= 1
        return out
    return f


def norm(v):
    """Compare as polynomials."""
    return {k: {(): c} if isinstance(c, int) else c for k, c in v.items()}


def show(v):
    return {k: (c[()] if set(c) == {()} else c) for k, c in v.items()}


@group('C19', limit=90)
def operators_(t):
    shapes = strict_upto(9 if t.deep else 7)
    ops = (('operator_shifted_add', add_op), ('operator_shifted_row_remove', row_remove), ('operator_shifted_column_remove', col_remove))
    for mu in shapes:
        for d in range(0, (mu[0] if mu else 0) + 3):
            for name, f in ops:
                w = show(f(d)(mu))
                t.eq('H.vec(operators.%s(%d)(%r))' % (name, d, mu), w)
                t.eq('H.vec(operators.%s(%d)(%r))' % (name, -d, mu), w)
                t.eq('H.vec(operators.%s(%d)(Vector({%r: 1})))' % (name, d, mu), w)
    small = strict_upto(6)
    for _ in range(400 if t.deep else 120):
        ks = t.rng.sample(small, t.rng.randint(1, 4))
        cs = [t.rng.choice((1, 2, -1, -3)) for _ in ks]
        v = dict(zip(ks, cs))
        pol = t.rng.random() < .5
        src = 'Vector({%s})' % ', '.join('%r: %d%s' % (k, c, ' * polynomials.X(1)' if pol else '') for k, c in v.items())
        a = {k: mul(con(c), var(1)) if pol else con(c) for k, c in v.items()}
        d = t.rng.randint(0, 4)
        d2 = t.rng.randint(0, 4)
        for (n1, f1), (n2, f2) in itertools.product(ops, ops):
            t.eq('H.vec(operators.%s(%d)(%s))' % (n1, d, src), show(lin(f1(d), a)))
            t.eq('H.vec(operators.%s(%d)(operators.%s(%d)(%s)))' % (n2, d2, n1, d, src), show(lin(f2(d2), lin(f1(d), a))))


@group('C19', limit=90)
def products(t):
    xv = t.ev('H.poly(operators.xvar)')
    yv = t.ev('H.poly(operators.yvar)')
    small = strict_upto(5)
    for mu in small:
        for n in range(0, 4):
            for name, f, rng, v in (('operator_AL', add_op, range(0, n + 1), yv), ('operator_AR', add_op, range(n, -1, -1), yv),
                                    ('operator_R', row_remove, range(0, n + 1), xv), ('operator_C', col_remove, range(n, 0, -1), xv)):
                a = {mu: con(1)}
                for i in rng:
                    a = vadd(a, smul(v, lin(f(i), a)))
                t.eq('H.vec(operators.%s(%d)(%r))' % (name, n, mu), show(a))
    t.true('operators.xvar != operators.yvar and operators.beta != operators.xvar and operators.beta == polynomials.X(0)')


def strip(mu, new):
    """Strict partition whose shifted diagram is that of mu with the boxes new, or None."""
    S = shboxes(mu)
    if S & new:
        return None
    T = S | new
    rows = {}
    for i, j in T:
        rows.setdefault(i, set()).add(j)
    nu = []
    for i in range(1, len(rows) + 1):
        if i not in rows or rows[i] != set(range(i, i + len(rows[i]))):
            return None
        nu.append(len(rows[i]))
    nu = tuple(nu)
    return nu if is_strict(nu) and shboxes(nu) == T else None


@group('C19', limit=90)
def strips(t):
    """Boxes of a row (column) on the contents a..b, first one just outside the diagonal a."""
    for mu in strict_upto(12 if t.deep else 9):
        S = shboxes(mu)
        for a in range(0, 5):
            for b in range(a, 6):
                i = 1
                while (i, i + a) in S:
                    i += 1
                new = {(i, i + c) for c in range(a, b + 1)}
                t.eq('dualops.sh_horizontal_strip(%d, %d)(%r)' % (a, b, mu), strip(mu, new))
                j = i + a
                new = {(j - c, j) for c in range(a, b + 1)}
                w = strip(mu, new) if all(r >= 1 for r, _ in new) else None
                t.eq('dualops.sh_vertical_strip(%d, %d)(%r)' % (a, b, mu), w)
    t.eq('dualops.sh_horizontal_strip(0, 1)(None)', None)
    t.eq('dualops.sh_vertical_strip(0, 1)(None)', None)


@group('C19')
def box_ops(t):
    """Words in r_i, c_i with r_i r_i = 0 and r_i c_i = 0 = c_i r_i."""
    def ok(w):
        return all(abs(a) != abs(b) for a, b in zip(w, w[1:]))
    ks = range(-3, 4)
    for n in (0, 1, 2):
        for u in itertools.product(ks, repeat=n):
            for m in (0, 1, 2):
                for v in itertools.product(ks, repeat=m):
                    w = u + v
                    if n == 2 and m == 2 and t.rng.random() > .1 and not t.deep:
                        continue
                    good = all(w[i] != w[i + 1] and w[i] != -w[i + 1] for i in range(len(w) - 1))
                    t.eq('H.vec((boxes.BoxOperator(1, *%r) * boxes.BoxOperator(2, *%r)).vector)' % (u, v), {(3,) + w: 1} if good else {})
    t.true('boxes.r(1) * "c2" == boxes.r(1) * boxes.c(2)')
    t.true('"r3" * boxes.c(2) == boxes.r(3) * boxes.c(2)')
    t.eq('H.vec((boxes.r(1) + 1).vector)', {(0, 1): 1, (0,): 1})
    t.eq('H.vec((1 - boxes.r(1)).vector)', {(0, 1): -1, (0,): 1})
    t.eq('H.vec((2 * boxes.r(1) - boxes.c(1) * 3).vector)', {(0, 1): 2, (0, -1): -3})
    t.true('boxes.r(1) - boxes.r(1) == 0')
    t.true('-(-boxes.r(2)) == boxes.r(2)')
