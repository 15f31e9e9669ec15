"""Further bounded stand-ins: the corners that mutation testing showed the other files leave out."""
import itertools
from .base import group
from .mathdefs import *
from .o_perm import P, L, comp, inv, gen, rdes, tr, up, sp, invol, length
from .o_poly import add, con
from .o_tab import ssyt, marked_ssyt, shifted_ssyt, rpp, marked_rpp
from .o_sym import gf, K, SHAPE
from .o_more import randpart


# ------------------------------------------------------------------ C19

@group('C19')
def box_arithmetic(t):
    B = 'boxes.BoxOperator'
    one = {(0,): 1}
    terms = [(0,), (0, 1), (0, -2), (1, 2, 1), (0, 3, -1)]
    for _ in range(60):
        def rnd():
            d = {}
            for k in t.rng.sample(terms, t.rng.randint(1, 3)):
                d[k] = t.rng.choice((1, 2, -1))
            return d
        src = lambda d: '(' + ' + '.join('%d * %s%r' % (c, B, k) if len(k) > 1 else '%d * %s(%d)' % (c, B, k[0]) for k, c in d.items()) + ')'
        a, b = rnd(), rnd()
        n = t.rng.randint(-2, 2)

        def lin(*ps):
            out = {}
            for c, d in ps:
                for k, v in d.items():
                    out[k] = out.get(k, 0) + c * v
            return {k: v for k, v in out.items() if v}
        V = 'H.vec((%s).vector)'
        t.eq(V % ('%s + %s' % (src(a), src(b))), lin((1, a), (1, b)))
        t.eq(V % ('%s - %s' % (src(a), src(b))), lin((1, a), (-1, b)))
        t.eq(V % ('-%s' % src(a)), lin((-1, a)))
        t.eq(V % ('%s + %d' % (src(a), n)), lin((1, a), (n, one)))
        t.eq(V % ('%d + %s' % (n, src(a))), lin((1, a), (n, one)))
        t.eq(V % ('%s - %d' % (src(a), n)), lin((1, a), (-n, one)))
        t.eq(V % ('%d - %s' % (n, src(a))), lin((-1, a), (n, one)))
        t.eq(V % ('%s * %d' % (src(a), n)), lin((n, a)))
        t.eq(V % ('%d * %s' % (n, src(a))), lin((n, a)))
        x = {(0,): {((1, 1),): 1}}
        for e in ('%s(0, 2) + polynomials.X(1)' % B, 'polynomials.X(1) + %s(0, 2)' % B):
            if not e.startswith('poly'):
                t.eq(V % e, {(0, 2): 1, **x})
        t.eq(V % ('%s(0, 2) - polynomials.X(1)' % B), {(0, 2): 1, (0,): {((1, 1),): -1}})
        t.eq('(%s == %s, %s == %s)' % (src(a), src(b), src(a), src(a)), (a == b, True))
        t.eq('(%s == 0, %s - %s == 0, %s() == 0)' % (src(a), src(a), src(a), B), (False, True, True))

        def times(u, v):
            out = {}
            for k, c in u.items():
                for m, d in v.items():
                    w = k[1:] + m[1:]
                    if all(w[i] != w[i + 1] and w[i] != -w[i + 1] for i in range(len(w) - 1)):
                        key = (k[0] + m[0],) + w
                        out[key] = out.get(key, 0) + c * d
            return {k: v for k, v in out.items() if v}
        for s, k in (('r2', 2), ('C1', -1), ('R13', 13), ('c2', -2)):
            t.eq(V % ('%s * %r' % (src(a), s)), times(a, {(0, k): 1}))
            t.eq(V % ('%r * %s' % (s, src(a))), times({(0, k): 1}, a))
    t.eq('(H.vec(boxes.r(3).vector), H.vec(boxes.c(3).vector))', ({(0, 3): 1}, {(0, -3): 1}))


# ------------------------------------------------------------------ C07, C08

@group('C08')
def more_permutation_statistics(t):
    for w in list(sp(3)) + list(up(5)) + [tr(x) for x in up(4)]:
        w = tr(w)
        n = len(w)
        e = P(w)
        t.eq('%s.rothe_diagram()' % e, sorted((i + 1, w[j]) for i in range(n) for j in range(i + 1, n) if w[i] > w[j]))
        t.eq('%s.is_unsigned()' % e, all(a > 0 for a in w))
        iv = inv(w) == w
        t.eq('%s.is_involution()' % e, iv)
        t.eq('%s.is_fpf_involution()' % e, iv and all(w[i] != i + 1 for i in range(n)))
        t.eq('%s.is_identity()' % e, w == ())
        t.eq('Permutation.longest_element(%d).oneline' % n, tuple(range(n, 0, -1)) if n > 1 else ())
        if iv:
            t.eq('%s.involution_rothe_diagram()' % e, sorted((i + 1, w[j]) for i in range(n) for j in range(i + 1, n) if w[i] > w[j] and i + 1 >= w[j]))
            t.eq('%s.fpf_rothe_diagram()' % e, sorted((i + 1, w[j]) for i in range(n) for j in range(i + 1, n) if w[i] > w[j] and i + 1 > w[j]))
        if all(a > 0 for a in w):
            code = tuple(sum(1 for j in range(i, n) if w[j] < w[i]) for i in range(n))
            t.eq('%s.code()' % e, code)
            ci = inv(w)
            t.eq('%s.shape()' % e, tuple(sorted((c for c in (sum(1 for j in range(i, n) if ci[j] < ci[i]) for i in range(n)) if c), reverse=True)))
            if iv:
                t.eq('%s.involution_code()' % e, tuple(sum(1 for j in range(i + 1, n) if w[j] < w[i] and w[j] <= i + 1) for i in range(n)))
                if all(w[i] != i + 1 for i in range(n)):
                    t.eq('%s.fpf_involution_code()' % e, tuple(sum(1 for j in range(i + 1, n) if w[j] < w[i] and w[j] < i + 1) for i in range(n)))
    for n in range(0, 7):
        want = sorted(tr(w) for w in up(n) if inv(w) == tr(w) and all(w[i] != i + 1 for i in range(n))) if n else [()]
        want = [w for w in want if len(w) == n]
        t.eq('sorted(w.oneline for w in Permutation.fpf_involutions(%d))' % n, want)
    for k in range(0, 6):
        for word in itertools.product(range(0, 4), repeat=k):
            if k == 5 and t.rng.random() > (.5 if t.deep else .1):
                continue
            for start, meth in (((), 'from_involution_word'),):
                w, good = (), True
                for i in word:
                    if i in rdes(w):
                        good = False
                    s = gen(i)
                    a = comp(comp(s, w), s)
                    w = tr(comp(w, s) if a == tr(w) else a)
                t.eq('Permutation.%s(%r, strict=False).oneline' % (meth, word), w)
                t.eq('(lambda w: w if w is None else w.oneline)(Permutation.%s(%r))' % (meth, word), w if good else None)
            if word and min(word) > 0:
                n = max(word) + 1
                n += n % 2
                w, good = tuple(x for i in range(1, n, 2) for x in (i + 1, i)), True
                for i in word:
                    s = gen(i)
                    a = tr(comp(comp(s, w), s))
                    if i in rdes(w) or a == tr(w):
                        good = False
                    w = a
                t.eq('Permutation.from_fpf_involution_word(%r, strict=False).oneline' % (word,), w)
                t.eq('(lambda w: w if w is None else w.oneline)(Permutation.from_fpf_involution_word(%r))' % (word,), w if good else None)


@group('C08')
def bounded_hecke_words(t):
    """Hecke words for (fpf) involutions with a bound on length, peaks or ascents, and only the reduced ones."""
    def peaks(w):
        s = [i for i in range(1, len(w) - 1) if w[i - 1] <= w[i] >= w[i + 1]]
        return 1 + peaks(w[s[0] + 1:]) if s else int(bool(w))

    def ascents(w):
        return sum(1 for i in range(len(w) - 1) if w[i] <= w[i + 1])

    for n, top in ((1, 4), (2, 5), (3, 5)):
        for hecke in (True, False):
            for pk in (None, 0, 1, 2):
                want = []
                for k in range(0, top + 1):
                    for w in itertools.product(range(0, n), repeat=k):
                        x, ok = (), True
                        for i in w:
                            if i in rdes(x):
                                ok = ok and hecke
                                continue
                            s = gen(i)
                            a = tr(comp(comp(s, x), s))
                            x = tr(comp(x, s)) if a == tr(x) else a
                        if ok and (pk is None or peaks(w) <= pk):
                            want.append((x, w))
                t.eq('sorted((z.oneline, tuple(w)) for lv in Permutation.involution_hecke_levels(%d, %d, %r, %r) for z, w in lv)' % (n, top, pk, hecke), sorted(want))
                if hecke:
                    t.eq('sorted(tuple(w) for w in Permutation.involution_hecke_words(%d, %d, %r))' % (n, top, pk), sorted(w for x, w in want))
    for n, top in ((2, 4), (4, 4)):
        for hecke in (True, False):
            for asc in (None, 0, 1, 2):
                want = []
                for k in range(0, top + 1):
                    for w in itertools.product(range(1, n), repeat=k):
                        x, ok = tuple(x for i in range(1, n, 2) for x in (i + 1, i)), True
                        for i in w:
                            s = gen(i)
                            a = tr(comp(comp(s, x), s))
                            if a == tr(x):
                                ok = False
                                break
                            if i in rdes(x):
                                ok = ok and hecke
                                continue
                            x = a
                        if ok and (asc is None or not w or ascents(w) < asc):
                            want.append((x, w))
                t.eq('sorted((z.oneline, tuple(w)) for lv in Permutation.symplectic_hecke_levels(%d, %d, %r, %r) for z, w in lv)' % (n, top, asc, hecke), sorted(want))
                t.eq('sorted(tuple(w) for w in Permutation.symplectic_hecke_words(%d, %d, %r, %r))' % (n, top, asc, hecke), sorted(w for x, w in want))


# ------------------------------------------------------------------ C12, C13, C02

@group('C12')
def permutation_arguments(t):
    """A permutation may stand in for a shape: the dispatch gives the function of that permutation."""
    for w in up(3):
        for n in (1, 2):
            for f, ok, m in (('grothendieck', True, 'stable_grothendieck'), ('G', True, 'stable_grothendieck'), ('grothendieck_S', inv(w) == tr(w), 'signed_involution_stable_grothendieck')):
                if ok:
                    e = P(tr(w))
                    for d in (None, length(w) + 1):
                        t.eq('utils.%s(%d, %s, degree_bound=%r) == %s.%s(%d, degree_bound=%r)' % (f, n, e, d, e, m, n, d), True)
    for w in ((2, 1), (2, 1, 4, 3), (4, 3, 2, 1), (3, 4, 1, 2)):
        for n in (1, 2):
            for d in (2, 3):
                t.eq('utils.grothendieck_P(%d, %s, degree_bound=%d) == %s.symplectic_stable_grothendieck(%d, %d)' % (n, P(w), d, P(w), n, d), True)
    for bad in ('utils.grothendieck(2, Permutation(2, 1), (1,))', 'utils.grothendieck_P(2, Permutation(2, 1), (1,))', 'utils.grothendieck_S(2, Permutation(2, 1), (1,))'):
        t.raises(bad)
    # a Grassmannian permutation of a shape gives the function of the shape
    for mu in ((1,), (2,), (1, 1), (2, 1)):
        code = mu[::-1]
        n = len(mu) + mu[0]
        w, left = [], list(range(1, n + 1))
        for c in code:
            w.append(left.pop(c))
        w += left
        for nv in (1, 2):
            t.eq('utils.grothendieck(%d, %s, degree_bound=4) == utils.grothendieck(%d, %r, degree_bound=4) or utils.grothendieck(%d, %s, degree_bound=4) == utils.grothendieck(%d, %r, degree_bound=4)' % (nv, P(w), nv, mu, nv, P(inv(w)), nv, mu), True)


@group('C12')
def skew_doublebar(t):
    """The functions of mu // nu subtract the same with corners removed, and vanish unless nu fits in mu."""
    for mu in parts_upto(3):
        for nu in parts_upto(3):
            for n in (1, 2):
                for st in (False, True):
                    if st and not (is_strict(mu) and is_strict(nu)):
                        continue
                    for f, dp in ([('stable_grothendieck', None)] if not st else [('stable_grothendieck_p', False), ('stable_grothendieck_q', True)]):
                        e = 'SymmetricPolynomial.%s_doublebar(%d, %r, %r)' % (f, n, mu, nu)
                        if not contains(mu, nu):
                            t.eq('%s == 0' % e, True)


@group('C13', 'C02')
def symmetric_identity(t):
    S, M = 'SymmetricPolynomial', 'SymmetricMonomial'
    ms = [(n, mu) for n in (1, 2, 3) for mu in parts_upto(3) if len(mu) <= n]
    for (n, mu), (m, nu) in itertools.product(ms, ms):
        same = (n, mu) == (m, nu)
        t.eq('(%s(%d, %r) == %s(%d, %r), %s(%d, %r) != %s(%d, %r))' % ((M, n, mu, M, m, nu) * 2), (same, not same))
        if same:
            t.eq('hash(%s(%d, %r)) == hash(%s(%d, %r))' % (M, n, mu, M, m, nu), True)
    for n, mu in ms:
        e = '%s(%d, %r)' % (M, n, mu)
        v = {tuple((i + 1, x) for i, x in enumerate(p) if x): 1 for p in set(itertools.permutations(mu + (0,) * (n - len(mu))))}
        t.eq(SHAPE % e, v)
        t.eq('(%s == 0, %s - %s == 0, %s * 1 == %s)' % ((e,) * 5), (False, True, True))
        t.eq('%s * 0 == 0' % e, True)
        t.eq(SHAPE % ('(%s ** 0)' % e), {(): 1})
        t.eq(SHAPE % ('(%s ** 1)' % e), v)
        for c in (-1, 2):
            t.eq(SHAPE % ('(%s * %d)' % (e, c)), {k: c for k in v})
            t.eq(SHAPE % ('(%d * %s)' % (c, e)), {k: c for k in v})
            t.eq(SHAPE % ('(%s + %d)' % (e, c)), add(v, con(c)))
            t.eq(SHAPE % ('(%d + %s)' % (c, e)), add(v, con(c)))
            p = '%s({%s: %d})' % (S, e, c)
            t.eq('(%s == 0, %s == %d, %s == %d, %s == %s)' % (p, p, c, p, c + 1, p, p), (False, mu == (), False, True))
            t.eq('(%s == %s, %s - %s * %d == 0)' % (p, e, p, e, c), (c == 1, True))


# ------------------------------------------------------------------ C03

@group('C03')
def multiplication_rule_survives(t):
    """The basis multiplication rule of a sum, difference or product is that of whichever operand has one."""
    rule = 'multiplier=(lambda a, b: [(a + b, 1), (a - b, 2)])'

    def times(u, v):
        out = {}
        for a, c in u.items():
            for b, d in v.items():
                for k, e in ((a + b, 1), (a - b, 2)):
                    out[k] = out.get(k, 0) + c * d * e
        return {k: v for k, v in out.items() if v}

    def lin(*ps):
        out = {}
        for c, d in ps:
            for k, v in d.items():
                out[k] = out.get(k, 0) + c * v
        return {k: v for k, v in out.items() if v}
    for _ in range(40):
        ds = [{k: t.rng.choice((1, -1, 2)) for k in t.rng.sample(range(1, 6), t.rng.randint(1, 3))} for _ in range(3)]
        W = ['Vector(%r, %s)' % (d, rule) for d in ds]
        N = ['Vector(%r)' % (d,) for d in ds]
        for a, b in ((W[0], W[1]), (W[0], N[1]), (N[0], W[1])):
            t.eq('H.vec((%s + %s) * %s)' % (a, b, W[2]), times(lin((1, ds[0]), (1, ds[1])), ds[2]))
            t.eq('H.vec((%s - %s) * %s)' % (a, b, W[2]), times(lin((1, ds[0]), (-1, ds[1])), ds[2]))
            t.eq('H.vec((%s + %s) * %s)' % (a, b, N[2]), times(lin((1, ds[0]), (1, ds[1])), ds[2]))
            t.eq('H.vec((%s - %s) * %s)' % (a, b, N[2]), times(lin((1, ds[0]), (-1, ds[1])), ds[2]))
        t.eq('H.vec((%s * %s) * %s)' % (W[0], N[1], N[2]), times(times(ds[0], ds[1]), ds[2]))
        t.eq('H.vec((3 * %s) * %s)' % (W[0], N[1]), times(lin((3, ds[0])), ds[1]))
        t.eq('H.vec((-%s) * %s)' % (W[0], N[1]), times(lin((-1, ds[0])), ds[1]))
        t.eq('(H.vec(Vector() - %s), H.vec(%s - Vector()))' % ((N[0],) * 2), (lin((-1, ds[0])), ds[0]))


# ------------------------------------------------------------------ C09, C11

@group('C09')
def standardization(t):
    """Entries are replaced by 1, 2, ... in the order of their values: among equal ones left to right,
    primed ones (negative) before unprimed ones and top to bottom."""
    for _ in range(300):
        nboxes = t.rng.randint(0, 6)
        bx = t.rng.sample([(i, j) for i in range(1, 5) for j in range(1, 5)], nboxes)
        T = {b: tuple(sorted(t.rng.sample([-3, -2, -1, 1, 2, 3], t.rng.randint(1, 2)))) for b in bx}
        ent = [(v, i, j) for (i, j), vs in T.items() for v in vs]
        keys = [(abs(v), v > 0, j if v > 0 else i) for v, i, j in ent]
        if len(set(keys)) < len(keys):
            continue
        want = {}
        for n, (k, (v, i, j)) in enumerate(sorted(zip(keys, ent))):
            want.setdefault((i, j), []).append((n + 1) if v > 0 else -(n + 1))
        want = {b: tuple(sorted(v)) for b, v in want.items()}
        t.eq('H.tab(Tableau(%r).standardize())' % T, want)
    t.eq('H.tab(Tableau({(1, 1): -1, (2, 1): -1, (1, 2): 1, (3, 1): 1}).standardize())', {(1, 1): (-1,), (2, 1): (-2,), (3, 1): (3,), (1, 2): (4,)})


@group('C09')
def reading_words(t):
    for mu in parts_upto(6):
        for T in ssyt(3, mu, ()):
            t.eq('H.tab(Tableau.from_row_reading_word(Tableau(%r).row_reading_word()))' % T, {b: tuple(v) if isinstance(v, tuple) else (v,) for b, v in T.items()})
    for _ in range(100):
        bx = t.rng.sample([(i, j) for i in range(1, 5) for j in range(1, 5)], t.rng.randint(0, 7))
        T = {b: tuple(t.rng.sample([-3, -2, -1, 1, 2, 3], t.rng.randint(1, 3))) for b in bx}
        s = {b: tuple(sorted(v)) for b, v in T.items()}
        e = 'Tableau(%r)' % T
        t.eq('H.tab(%s)' % e, s)
        row = [v for b in sorted(s, key=lambda b: (-b[0], b[1])) for v in s[b]]
        col = [v for b in sorted(s, key=lambda b: (b[1], -b[0])) for v in s[b]]
        t.eq('%s.row_reading_word()' % e, tuple(row))
        t.eq('%s.column_reading_word()' % e, tuple(col))
        t.eq('%s.shifted_reading_word()' % e, tuple(-v for v in col[::-1] if v < 0) + tuple(v for v in row if v > 0))
        t.eq('%s.is_shifted_column_superstandard()' % e, [v[0] for b, v in sorted(s.items(), key=lambda x: (x[0][1], x[0][0]))] == list(range(1, len(s) + 1)) and all(len(v) == 1 for v in s.values()))
        t.eq('%s.weight()' % e, t.ev('%s.weight()' % e))
    for mu in strict_upto(6):
        T = {}
        for i, j in sorted(shboxes(mu), key=lambda b: (b[1], b[0])):
            T[i, j] = len(T) + 1
        for b in T:
            for v in (T[b] + 1, (T[b], T[b] + 1), 0):
                U = dict(T)
                U[b] = v
                t.eq('Tableau(%r).is_shifted_column_superstandard()' % U, False)


@group('C11', limit=120)
def three_corners(t):
    """Shapes with three corners, where a value may fill any subset of them."""
    def same(meth, n, mu, nu, want):
        t.eq('sorted(H.key(T) for T in Tableau.%s(%d, %r, %r))' % (meth, n, mu, nu), sorted(tuple(sorted((b, v if isinstance(v, tuple) else (v,)) for b, v in T.items())) for T in want))
    from .o_tab import ssyt as S
    same('semistandard_setvalued', 2, (3, 2, 1), (2, 1), S(2, (3, 2, 1), (2, 1), True))
    same('semistandard_setvalued', 3, (3, 2, 1), (2, 1), S(3, (3, 2, 1), (2, 1), True))
    same('semistandard_setvalued', 3, (3, 2, 1), (1,), S(3, (3, 2, 1), (1,), True))
    same('semistandard', 3, (4, 3, 2), (3, 2), S(3, (4, 3, 2), (3, 2)))
    same('semistandard_shifted_marked_setvalued', 2, (5, 3, 1), (4, 2), list(shifted_ssyt(2, (5, 3, 1), (4, 2), True, True)))


# ------------------------------------------------------------------ C16

@group('C16')
def insertion_argument_forms(t):
    for _ in range(60):
        w = tuple(t.rng.randint(1, 4) for _ in range(t.rng.randint(0, 6)))
        t.eq('HState.insertion_tableaux(%r) == HState.insertion_tableaux(*%r)' % (list(w), w), True)
        t.eq('HState.insertion_tableaux(%r) == HState.insertion_tableaux(*%r)' % (w, w), True)
        e = tuple(2 * a for a in w)
        t.eq('FState.insertion_tableaux(%r) == FState.insertion_tableaux(*%r)' % (list(e), e), True)
