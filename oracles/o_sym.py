import itertools
from .base import group
from .mathdefs import *
from .o_tab import ssyt, marked_ssyt, shifted_ssyt, rpp, marked_rpp, weight, rpp_weight, pairs, fillings, weak, marked, order
from .o_poly import add, mul, var, power, con, clean


def xmon(w, b=0):
    return tuple(([(0, b)] if b else []) + [(i + 1, e) for i, e in enumerate(w) if e])


def gf(Ts, n, wt=weight, b=lambda w: 0, c=lambda w: 1):
    out = {}
    for T in Ts:
        w = wt(T, n)
        m = xmon(w, b(w))
        out[m] = out.get(m, 0) + c(w)
    return clean(out)


SHAPE = 'H.poly(%s.polynomial())'


def K(size):
    return lambda w: sum(w) - size


def dual(size):
    return (lambda w: size - sum(w)), (lambda w: (-1) ** (size - sum(w)))


@group('C12', limit=150)
def ordinary(t):
    for mu, nu in pairs(5):
        k = sum(mu) - sum(nu)
        for n in range(0, 4 if k < 5 else 3):
            Ts = ssyt(n, mu, nu)
            for f in ('SymmetricPolynomial.schur', 's'):
                t.eq(SHAPE % ('%s(%d, %r, %r)' % ('utils.' + f if f == 's' else f, n, mu, nu)), gf(Ts, n))
            t.eq(SHAPE % ('SymmetricPolynomial._slow_schur(%d, %r, %r)' % (n, mu, nu)), gf(Ts, n))
            if k < 5 and n < 4:
                Ts = ssyt(n, mu, nu, True)
                g = gf(Ts, n, b=K(k))
                t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), g)
                t.eq(SHAPE % ('utils.G(%d, %r, %r)' % (n, mu, nu)), g)
                t.eq('H.poly(SymmetricPolynomial.stable_grothendieck(%d, %r, %r).polynomial().substitute(0, 0))' % (n, mu, nu), gf(ssyt(n, mu, nu), n))
                t.eq(SHAPE % ('SymmetricPolynomial.mn_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), gf(Ts, n, b=K(k), c=lambda w: (-1) ** (sum(w) - k)))
                for d in (k, k + 1):
                    t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck(%d, %r, %r, degree_bound=%d)' % (n, mu, nu, d)), {m: c for m, c in g.items() if sum(e for i, e in m if i) <= d})
                if len(Ts) < 800:
                    t.eq(SHAPE % ('SymmetricPolynomial._slow_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), g)
            b, c = dual(k)
            Ts = rpp(n, mu, nu)
            g = gf(Ts, n, rpp_weight, b, c)
            t.eq(SHAPE % ('SymmetricPolynomial.dual_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), g)
            t.eq(SHAPE % ('utils.g(%d, %r, %r)' % (n, mu, nu)), g)
            t.eq(SHAPE % ('SymmetricPolynomial.mp_dual_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), gf(Ts, n, rpp_weight, b))
            t.eq(SHAPE % ('SymmetricPolynomial._slow_dual_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), g)


def boxes_count(T, v, key):
    return len({key(b) for b, vs in T.items() if vs[0] == v})


def transposed(Ts, n, size):
    """sum over T of prod x_i^r (x_i + beta)^(a - r): r counts rows holding i and columns holding i'."""
    out = {}
    for T in Ts:
        m = con(1)
        for i in range(1, n + 1):
            r = boxes_count(T, i, lambda b: b[0]) + boxes_count(T, -i, lambda b: b[1])
            a = sum(1 for vs in T.values() if abs(vs[0]) == i)
            m = mul(m, mul(power(var(i), r), power(add(var(i), var(0)), a - r)))
        out = add(out, m)
    return out


@group('C12', limit=150)
def transposed_duals(t):
    for mu, nu in pairs(4):
        for n in range(0, 4):
            t.eq(SHAPE % ('SymmetricPolynomial.slow_transposed_dual_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), transposed(ssyt(n, mu, nu), n, 0))
    for mu, nu in pairs(5, True, m=4):
        for n in range(0, 3):
            t.eq(SHAPE % ('SymmetricPolynomial.slow_transposed_dual_stable_grothendieck_q(%d, %r, %r)' % (n, mu, nu)), transposed(shifted_ssyt(n, mu, nu), n, 0))
            t.eq(SHAPE % ('SymmetricPolynomial.slow_transposed_dual_stable_grothendieck_p(%d, %r, %r)' % (n, mu, nu)), transposed(shifted_ssyt(n, mu, nu, False), n, 0))


@group('C12', limit=150)
def shifted(t):
    for mu, nu in pairs(6, True, m=5):
        k = sum(mu) - sum(nu)
        for n in range(0, 4 if k < 4 else 3):
            for dp, nm in ((True, 'q'), (False, 'p')):
                Ts = shifted_ssyt(n, mu, nu, dp)
                t.eq(SHAPE % ('SymmetricPolynomial.schur_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(Ts, n))
                t.eq(SHAPE % ('utils.%s(%d, %r, %r)' % (nm.upper(), n, mu, nu)), gf(Ts, n))
                t.eq(SHAPE % ('SymmetricPolynomial._slow_schur_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(Ts, n))
                if k < 4 and n < 3:
                    S = shifted_ssyt(n, mu, nu, dp, True)
                    g = gf(S, n, b=K(k))
                    t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), g)
                    t.eq(SHAPE % ('utils.G%s(%d, %r, %r)' % (nm.upper(), n, mu, nu)), g)
                    t.eq('H.poly(SymmetricPolynomial.stable_grothendieck_%s(%d, %r, %r).polynomial().substitute(0, 0))' % (nm, n, mu, nu), gf(Ts, n))
                    t.eq(SHAPE % ('SymmetricPolynomial.mn_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(S, n, b=K(k), c=lambda w: (-1) ** (sum(w) - k)))
                    t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_%s(%d, %r, %r, %d)' % (nm, n, mu, nu, k + 1)), {m: c for m, c in g.items() if sum(e for i, e in m if i) <= k + 1})
                if k < 5:
                    b, c = dual(k)
                    R = marked_rpp(n, mu, nu, dp) if n < 3 else []
                    if n < 3:
                        g = gf(R, n, rpp_weight, b, c)
                        t.eq(SHAPE % ('SymmetricPolynomial.dual_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), g)
                        t.eq(SHAPE % ('utils.g%s(%d, %r, %r)' % (nm, n, mu, nu)), g)
                        t.eq(SHAPE % ('SymmetricPolynomial.mp_dual_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(R, n, rpp_weight, b))


@group('C12', limit=150)
def marked_unshifted(t):
    for mu, nu in pairs(4):
        k = sum(mu) - sum(nu)
        for n in range(0, 3):
            Ts = marked_ssyt(n, mu, nu)
            t.eq(SHAPE % ('SymmetricPolynomial.schur_s(%d, %r, %r)' % (n, mu, nu)), gf(Ts, n))
            t.eq(SHAPE % ('utils.S(%d, %r, %r)' % (n, mu, nu)), gf(Ts, n))
            if k < 4:
                g = gf(marked_ssyt(n, mu, nu, True), n, b=K(k))
                t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_s(%d, %r, %r)' % (n, mu, nu)), g)
                t.eq(SHAPE % ('utils.GS(%d, %r, %r)' % (n, mu, nu)), g)
            b, c = dual(k)
            R = fillings(boxes(mu) - boxes(nu), marked(n), weak, weak)
            t.eq(SHAPE % ('SymmetricPolynomial.dual_stable_grothendieck_s(%d, %r, %r)' % (n, mu, nu)), gf(R, n, rpp_weight, b, c))


@group('C12', limit=150)
def doublebar(t):
    """G_{mu // nu}: beta to the number of removed corners times G of the larger skew shape."""
    for mu, nu in pairs(4):
        out = {'': {}, '_s': {}}
        cor = [i for i in range(len(nu)) if i + 1 == len(nu) or nu[i] > nu[i + 1]]
        for r in range(len(cor) + 1):
            for s in itertools.combinations(cor, r):
                x = strip0([a - (1 if i in s else 0) for i, a in enumerate(nu)])
                k = sum(mu) - sum(x)
                out[''] = add(out[''], mul(power(var(0), r), gf(ssyt(2, mu, x, True), 2, b=K(k))))
                if k < 4:
                    out['_s'] = add(out['_s'], mul(power(var(0), r), gf(marked_ssyt(2, mu, x, True), 2, b=K(k))))
        t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_doublebar(2, %r, %r)' % (mu, nu)), out[''])
        if sum(mu) - sum(nu) + len(cor) < 4:
            t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_s_doublebar(2, %r, %r)' % (mu, nu)), out['_s'])
    for mu, nu in pairs(5, True, m=3):
        cor = [i for i in range(len(nu)) if i + 1 == len(nu) or nu[i] > nu[i + 1] + 1]
        if sum(mu) - sum(nu) + len(cor) > 3:
            continue
        for dp, nm in ((True, 'q'), (False, 'p')):
            out = {}
            for r in range(len(cor) + 1):
                for s in itertools.combinations(cor, r):
                    x = strip0([a - (1 if i in s else 0) for i, a in enumerate(nu)])
                    out = add(out, mul(power(var(0), r), gf(shifted_ssyt(2, mu, x, dp, True), 2, b=K(sum(mu) - sum(x)))))
            t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_%s_doublebar(2, %r, %r)' % (nm, mu, nu)), out)


# ------------------------------------------------------------------ C13


def monomial(mu, n):
    return {xmon(w): 1 for w in set(itertools.permutations(tuple(mu) + (0,) * (n - len(mu))))} if len(mu) <= n else {}


def rand_sym(t, n, polys):
    out = []
    for _ in range(t.rng.randint(0, 3)):
        mu = t.rng.choice([p for p in parts_upto(4) if len(p) <= n])
        c = t.rng.choice(['beta', '-beta', '(beta + 1)', '2', '-1']) if polys else str(t.rng.randint(-3, 3))
        out.append((mu, c))
    return list(dict(out).items())


CO = {'beta': var(0), '-beta': add({}, var(0), -1), '(beta + 1)': add(var(0), con(1))}


def symref(f, n):
    out = {}
    for mu, c in f:
        out = add(out, mul(CO[c] if c in CO else con(int(c)), monomial(mu, n)))
    return out


def symsrc(f, n):
    return 'SymmetricPolynomial({%s})' % ', '.join('SymmetricMonomial(%d, %r): %s' % (n, mu, c) for mu, c in f)


@group('C13', limit=90)
def ring(t):
    for n in range(0, 4):
        ms = [p for p in parts_upto(4 if n < 3 or t.deep else 3) if len(p) <= n]
        for a in ms:
            t.eq('H.poly(SymmetricMonomial(%d, %r).polynomial())' % (n, a), monomial(a, n))
            for b in ms:
                t.eq('H.poly((SymmetricMonomial(%d, %r) * SymmetricMonomial(%d, %r)).polynomial())' % (n, a, n, b), mul(monomial(a, n), monomial(b, n)))
                t.eq('H.poly((SymmetricMonomial(%d, %r) + SymmetricMonomial(%d, %r)).polynomial())' % (n, a, n, b), add(monomial(a, n), monomial(b, n)))
                t.eq('H.poly((SymmetricMonomial(%d, %r) - SymmetricMonomial(%d, %r)).polynomial())' % (n, a, n, b), add(monomial(a, n), monomial(b, n), -1))
    for a, b in itertools.product(parts_upto(3), repeat=2):
        n = len(a) + len(b) + 1
        if n < 6:
            t.eq('H.poly((SymmetricMonomial(%d, %r) * SymmetricMonomial(%d, %r)).polynomial())' % (n, a, n, b), mul(monomial(a, n), monomial(b, n)))
    for _ in range(150 if not t.deep else 1500):
        n = t.rng.randint(0, 4)
        polys = t.rng.random() < .4
        f, g = rand_sym(t, n, polys), rand_sym(t, n, polys)
        F, G = symsrc(f, n), symsrc(g, n)
        rf, rg = symref(f, n), symref(g, n)
        t.eq('H.poly((%s).polynomial())' % F, rf)
        t.eq('H.poly((%s + %s).polynomial())' % (F, G), add(rf, rg))
        t.eq('H.poly((%s - %s).polynomial())' % (F, G), add(rf, rg, -1))
        t.eq('H.poly((%s * %s).polynomial())' % (F, G), mul(rf, rg))
        t.eq('H.poly((-%s).polynomial())' % F, add({}, rf, -1))
        t.eq('H.poly((3 * %s).polynomial())' % F, mul(con(3), rf))
        t.eq('H.poly((%s * beta).polynomial())' % F, mul(var(0), rf))
        t.eq('H.poly((beta * %s).polynomial())' % F, mul(var(0), rf))
        t.eq('H.poly((%s ** 2).polynomial())' % F, mul(rf, rf))
        t.eq('H.poly((%s).truncate(2).polynomial())' % F, {m: c for m, c in rf.items() if sum(e for i, e in m if i) <= 2})
        t.eq('(%s == %s, %s == %s)' % (F, G, F, F), (rf == rg, True))
        t.eq('(lambda a, b, c: a * (b + c) == a * b + a * c and a * b == b * a)(%s, %s, %s)' % (F, G, symsrc(rand_sym(t, n, polys), n)), True)
        if rf:
            d = [sum(mu) for mu, c in f if c != '0']
            lo = {m: c for m, c in rf.items() if sum(e for i, e in m if i) == min(d)}
            hi = {m: c for m, c in rf.items() if sum(e for i, e in m if i) == max(d)}
            t.eq('(H.poly(%s.lowest_degree_terms().polynomial()), H.poly(%s.highest_degree_terms().polynomial()))' % (F, F), (lo, hi))


@group('C02', limit=60)
def sym_equality(t):
    for _ in range(150):
        n = t.rng.randint(1, 3)
        polys = t.rng.random() < .4
        f, g = rand_sym(t, n, polys), rand_sym(t, n, polys)
        F, G = symsrc(f, n), symsrc(g, n)
        t.true('H.same(%s + %s, %s + %s)' % (F, G, G, F))
        t.true('H.same(%s * %s, %s * %s)' % (F, G, G, F))
        t.true('H.same(%s + %s - %s, %s)' % (F, G, G, F))
        if symref(f, n) != symref(g, n):
            t.true('H.differ(%s, %s)' % (F, G))


# ------------------------------------------------------------------ C14

BASES = [('schur_expansion', 'schur', False), ('grothendieck_expansion', 'stable_grothendieck', False), ('mn_grothendieck_expansion', 'mn_stable_grothendieck', False),
         ('dual_grothendieck_expansion', 'dual_stable_grothendieck', False), ('mp_dual_grothendieck_expansion', 'mp_dual_stable_grothendieck', False),
         ('j_expansion', 'slow_transposed_dual_stable_grothendieck', False), ('P_expansion', 'schur_p', True), ('Q_expansion', 'schur_q', True),
         ('gp_expansion', 'dual_stable_grothendieck_p', True), ('gq_expansion', 'dual_stable_grothendieck_q', True),
         ('mp_gp_expansion', 'mp_dual_stable_grothendieck_p', True), ('mp_gq_expansion', 'mp_dual_stable_grothendieck_q', True),
         ('jp_expansion', 'slow_transposed_dual_stable_grothendieck_p', True), ('jq_expansion', 'slow_transposed_dual_stable_grothendieck_q', True),
         ('GP_expansion', 'stable_grothendieck_p', True), ('GQ_expansion', 'stable_grothendieck_q', True),
         ('mn_GP_expansion', 'mn_stable_grothendieck_p', True), ('mn_GQ_expansion', 'mn_stable_grothendieck_q', True)]


@group('C14', limit=150)
def expansions(t):
    for ex, fn, st in BASES:
        for n in (1, 2, 3):
            shapes = [p for p in (strict_upto(5) if st else parts_upto(4)) if len(p) <= n]
            if n == 3 and not t.deep:
                shapes = [p for p in shapes if sum(p) <= 3]
            B = lambda mu: 'SymmetricPolynomial.%s(%d, %r)' % (fn, n, mu)
            E = 'H.vec(SymmetricPolynomial.%s(%%s))' % ex
            for mu in shapes:
                t.eq(E % B(mu), {mu: 1})
            for _ in range(3):
                combo = {mu: t.rng.choice(['1', '-2', 'beta', '(1 + beta)', '3', '(beta * beta - beta)']) for mu in t.rng.sample(shapes, min(2, len(shapes)))}
                src = ' + '.join('%s * %s' % (c, B(mu)) for mu, c in combo.items())
                t.eq('H.vec(SymmetricPolynomial.%s(%s)) == H.vec(Vector({%s}))' % (ex, src, ', '.join('%r: %s' % (mu, c) for mu, c in combo.items())), True)
            t.eq(E % 'SymmetricPolynomial()', {})
    for n in (2, 3):
        for a, b in itertools.product([p for p in parts_upto(2)], repeat=2):
            for ex, fn, st in BASES[:2] + BASES[3:4]:
                t.eq('(lambda f: sum((c * SymmetricPolynomial.%s(%d, mu) for mu, c in SymmetricPolynomial.%s(f).items()), SymmetricPolynomial()) == f)'
                     '(SymmetricPolynomial.%s(%d, %r) * SymmetricPolynomial.%s(%d, %r))' % (fn, n, ex, fn, n, a, fn, n, b), True) if len(a) <= n and len(b) <= n else None
    for mu in parts_upto(4):
        t.eq('H.vec(SymmetricPolynomial.omega_schur_expansion(SymmetricPolynomial.schur(4, %r)))' % (mu,), {from_rows({(j, i) for i, j in boxes(mu)}): 1})
