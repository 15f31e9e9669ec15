"""Further bounded stand-ins: larger random inputs and the functions the other files do not reach."""
import itertools
from .base import group
from .mathdefs import *
from .o_partitions import is_shifted
from .o_perm import P, L, at, comp, inv, gen, length, rdes, ldes, tr, up, sp, bruhat_down, invol, dem
from .o_poly import add, mul, var, power, con, clean
from .o_ops import add_op, row_remove, col_remove, lin, vadd, smul, show
from .o_words import fop, eop, free, multiset_ssyt, wt, legal, words
from .o_tab import ssyt, marked_ssyt, shifted_ssyt, rpp, marked_rpp, rpp_weight, weight, pairs
from .o_sym import gf, dual, K, SHAPE, monomial, symsrc, symref


# ------------------------------------------------------------------ C04 - C06

def randpart(rng, n, strict=False):
    """A random partition with at most n boxes."""
    for _ in range(1000):
        p = tuple(sorted((rng.randint(1, max(1, n // rng.randint(1, 4))) for _ in range(rng.randint(0, 7))), reverse=True))
        if strict:
            p = tuple(sorted(set(p), reverse=True))
        if sum(p) <= n:
            return p
    return ()


@group('C04', limit=90)
def large_diagrams(t):
    for _ in range(600 if t.deep else 150):
        for st in (False, True):
            mu, nu = randpart(t.rng, 40, st), randpart(t.rng, 40, st)
            sb = shboxes if st else boxes
            t.eq('Partition.contains(%r, %r)' % (mu, nu), sb(nu) <= sb(mu))
            t.eq('Partition.union(%r, %r)' % (mu, nu), from_rows(sb(mu) | sb(nu)))
            t.eq('Partition.shape(%r)' % (mu,), boxes(mu))
            t.eq('Partition.from_shape(Partition.shape(%r))' % (mu,), mu)
            t.eq('Partition.skew(%r, Partition.union(%r, %r))' % (mu, mu, nu), set())
            lo = tuple(min(a, b) for a, b in zip(mu, nu))
            lo = strip0(lo)
            t.eq('Partition.skew(%r, %r, %r)' % (mu, lo, st), sb(mu) - sb(lo))
            t.eq('(Partition.is_partition(%r), Partition.is_strict_partition(%r))' % (mu, mu), (True, is_strict(mu)))
            t.eq('(Partition.is_partition(%r), Partition.is_strict_partition(%r))' % (mu[::-1], mu[::-1]), (is_part(mu[::-1]), is_strict(mu[::-1])))
            col = tuple(sum(1 for a in mu if a >= j) for j in range(1, (mu[0] if mu else 0) + 1))
            t.eq('Partition.transpose(%r)' % (mu,), col)
            i, j = t.rng.randint(-1, 8), t.rng.randint(-1, 20)
            t.eq('(Partition.isin(%r, %d, %d), Partition.isin(%r, %d, %d, True), Partition.isin_shifted(%r, %d, %d))' % ((mu, i, j) * 3), ((i, j) in boxes(mu), (i, j) in shboxes(mu), (i, j) in shboxes(mu)))
            t.eq('Partition.trim(%r)' % (mu + t.rng.randint(0, 4) * (0,),), mu)
            if st:
                t.eq('Partition.shifted_shape(%r)' % (mu,), shboxes(mu))
                t.eq('Partition.merge_shifted(%r, %r)' % (mu, shboxes(nu)), from_rows(shboxes(mu) | shboxes(nu)))
            d = sb(mu) - sb(lo)
            if d:
                ex = 'Partition.from_skew(%r, %r)' % (d, st)
                r = t.ev(ex)
                t.note(ex)
                ok = is_strict if st else is_part
                got = sb(r[0]) - sb(r[1])
                c = min(y for x, y in d) - min(y for x, y in got) if got else 0
                if not (ok(r[0]) and ok(r[1]) and {(x, y - c) for x, y in d} == got):
                    t.fail(ex, 'two shapes whose difference is that set of boxes (moved left)', r)
    for n in range(0, 8):
        for mu in strict_upto(12):
            if all(a <= n - i for i, a in enumerate(mu)):
                rest = {(i, j) for i in range(1, n + 1) for j in range(i, n + 1)} - shboxes(mu)
                cols = tuple(sorted((sum(1 for b in rest if b[1] == j) for j in range(1, n + 1)), reverse=True))
                t.eq('Partition.complement(%d, %r)' % (n, mu), strip0(cols))


@group('C04')
def skew_keys(t):
    """The key of a skew shape is its set of boxes moved to the corner (when shifted: moved somewhere)."""
    def corner(d):
        a, b = min(i for i, j in d), min(j for i, j in d)
        return tuple(sorted((i - a + 1, j - b + 1) for i, j in d))

    for st in (False, True):
        ps = strict_upto(7) if st else parts_upto(6)
        sb = shboxes if st else boxes
        for mu in ps:
            for nu in ps:
                d = sb(mu) - sb(nu)
                if contains(mu, nu) and d:
                    ex = 'Partition.skew_key(%r, %r, %r)' % (mu, nu, st)
                    if not st:
                        t.eq(ex, corner(d))
                    else:
                        r = t.ev(ex)
                        t.note(ex)
                        if corner(r) != corner(d) or tuple(sorted(r)) != r:
                            t.fail(ex, 'a translate of the skew shape, as a sorted tuple', r)


@group('C05', limit=90)
def large_corners(t):
    for _ in range(400 if t.deep else 120):
        mu = randpart(t.rng, 45, True)
        sh = shboxes(mu)
        good = []
        for r in range(1, len(mu) + 1):
            rows = list(mu)
            rows[r - 1] -= 1
            ok = is_strict(strip0(rows))
            t.eq('Partition.remove_shifted_inner_corner(%r, %d)' % (mu, r), strip0(rows) if ok else None)
            if ok:
                good.append(r)
        for d in range(0, (mu[0] if mu else 0) + 2):
            inner = [i for (i, j) in sh if j - i == d and is_shifted(sh - {(i, j)})]
            t.eq('Partition.find_shifted_inner_corner(%r, %d)' % (mu, d), inner[0] if inner else None)
            outer = [i for i in range(1, len(mu) + 2) if (i, i + d) not in sh and is_shifted(sh | {(i, i + d)})]
            t.eq('Partition.find_shifted_outer_corner(%r, %d)' % (mu, d), outer[0] if outer else None)
        want = sorted(strip0([a - (1 if i + 1 in s else 0) for i, a in enumerate(mu)]) for k in range(len(good) + 1) for s in itertools.combinations(good, k))
        t.eq('sorted(Partition.remove_shifted_inner_corners(%r))' % (mu,), want)
        if mu:
            r = next((i for i in range(len(mu)) if i + 1 == len(mu) or mu[i] - 1 > mu[i + 1]))
            t.eq('Partition.decrement_one(%r)' % (mu,), strip0([a - (1 if i == r else 0) for i, a in enumerate(mu)]))
        mu = randpart(t.rng, 45)
        good = [r for r in range(1, len(mu) + 1) if r == len(mu) or mu[r - 1] > mu[r]]
        for r in range(1, len(mu) + 2):
            rows = list(mu) + [0]
            rows[r - 1] += 1
            t.eq('(Partition.add(%r, %d), Partition.add_box_to_row(%r, %d))' % (mu, r, mu, r), (strip0(rows), strip0(rows)))
            if r in good:
                rows[r - 1] -= 2
                t.eq('Partition.remove_inner_corner(%r, %d)' % (mu, r), strip0(rows))
            elif r <= len(mu):
                t.raises('Partition.remove_inner_corner(%r, %d)' % (mu, r))
        want = sorted(strip0([a - (1 if i + 1 in s else 0) for i, a in enumerate(mu)]) for k in range(len(good) + 1) for s in itertools.combinations(good, k))
        t.eq('sorted(Partition.remove_inner_corners(%r))' % (mu,), want)


@group('C06', limit=90)
def large_enumerations(t):
    for n in range(8, 15 if t.deep else 13):
        ps = partitions(n)
        for mp, mr, st, ev in [(None, None, False, False), (None, None, True, False), (None, None, False, True), (None, None, True, True), (4, None, True, False), (None, 3, False, False), (5, 4, False, True), (n, n, False, False), (6, 2, True, False)]:
            want = sorted(p for p in ps if (mp is None or p[0] <= mp) and (mr is None or len(p) <= mr) and (not st or is_strict(p)) and (not ev or all(a % 2 == 0 for a in p)))
            t.eq('sorted(Partition.generate(%d, %r, %r, %r, %r))' % (n, mp, mr, st, ev), want)
    for _ in range(200 if t.deep else 60):
        st = t.rng.random() < .5
        mu = randpart(t.rng, 14, st)
        inner = subs(mu, st)
        nu = t.rng.choice(inner)
        t.eq('sorted(Partition.subpartitions(%r, %r, %r))' % (mu, nu, st), [x for x in inner if contains(x, nu)])
        t.eq('sorted(Partition.subpartitions(%r, %r, %r))' % (mu + (0,), nu + (0, 0), st), [x for x in inner if contains(x, nu)])
        succ = {strip0([a + e for a, e in zip(mu, es)]) for es in itertools.product((0, 1), repeat=len(mu))}
        t.eq('sorted(Partition.successors(%r, %r))' % (mu, st), sorted(x for x in succ if (is_strict(x) if st else is_part(x))))
        if st:
            t.eq('sorted(Partition.shifted_ribbon_complements(%r))' % (mu,), [x for x in inner if contains(x, mu[1:])])
    for n in range(9, 12):
        t.eq('sorted(Partition.compositions(%d))' % n, sorted(compositions(n)))


@group('C06')
def decompositions(t):
    """One box taken off the end of some rows / a rim taken off: every strict result, once."""
    for mu in strict_upto(14):
        for name, ok in (('vertical_strips', lambda nu: all(0 <= a - b <= 1 for a, b in zip(mu, nu))), ('rims', lambda nu: all(b >= a for a, b in zip(mu[1:], nu)))):
            want = sorted(nu for nu in subs(mu, True) if ok(nu + (len(mu) - len(nu)) * (0,)))
            t.eq('sorted(Partition.decompose_shifted_shape_by_%s(%r))' % (name, mu), want)
    for mu in strict_upto(9)[:12]:
        z = (0,) if mu else ()
        t.eq('sorted(Partition.decompose_shifted_shape_by_vertical_strips(%r))' % (mu + z,), sorted(nu for nu in subs(mu, True) if all(0 <= a - b <= 1 for a, b in zip(mu, nu + (len(mu) - len(nu)) * (0,)))))


@group('C04')
def odd_inputs(t):
    for mu in [(1, -1), (0, -1), (-1,), (2, 1, -3), (0,), (0, 0), (3, 0), (3, 0, 0), (1, 2), (2, 2, -1), (3, 1, 1, 0)]:
        t.eq('Partition.is_partition(%r)' % (mu,), list(mu) == sorted(mu, reverse=True) and min(mu) >= 0)
        if min(mu) > 0:
            t.eq('(Partition.is_strict_partition(%r), Partition.is_strict(%r))' % (mu, mu), (is_strict(mu), is_strict(mu)))
    for mu in strict_upto(6):
        for nu in strict_upto(4):
            want = from_rows(shboxes(mu) | shboxes(nu))
            for a in (repr(mu), repr(list(mu)), repr(shboxes(mu))):
                for b in (repr(shboxes(nu)), repr(sorted(shboxes(nu)))):
                    t.eq('Partition.merge_shifted(%s, %s)' % (a, b), want)


# ------------------------------------------------------------------ C07, C08

def rsigned(rng, n):
    p = list(range(1, n + 1))
    rng.shuffle(p)
    return tuple(a * rng.choice((1, -1)) for a in p)


@group('C07', limit=90)
def large_group(t):
    for _ in range(1500 if t.deep else 300):
        u, v, w = (rsigned(t.rng, t.rng.randint(0, 12)) for _ in range(3))
        k = t.rng.randint(-7, 7)
        t.eq(L('%s * %s' % (P(u), P(v))), comp(u, v))
        t.eq(L('%s * %s * %s' % (P(u), P(v), P(w))), comp(u, comp(v, w)))
        t.eq(L('%s.inverse()' % P(u)), inv(u))
        x, base = (), tr(u) if k >= 0 else inv(u)
        for _ in range(abs(k)):
            x = comp(x, base)
        t.eq(L('%s ** %d' % (P(u), k)), x)
        t.eq('[(%s)(i) for i in range(-15, 16)]' % P(u), [at(u, i) for i in range(-15, 16)])
        t.eq('(%s == %s, %s == %s)' % (P(u), P(u + (len(u) + 1,)), P(u), P(v)), (True, tr(u) == tr(v)))
        t.eq('%s.is_even_signed()' % P(u), sum(1 for a in u if a < 0) % 2 == 0)
    for n in range(0, 7):
        for _ in range(20):
            w = list(range(1, n + 1))
            t.rng.shuffle(w)
            t.eq(L('%s.star()' % P(w)), (lambda m: tr(m + 1 - a for a in reversed(tr(w))))(len(tr(w))))
            cyc, seen = [], set()
            for i in range(1, n + 1):
                if i not in seen:
                    c, j = [], i
                    while j not in seen:
                        seen.add(j)
                        c.append(j)
                        j = w[j - 1]
                    cyc.append(c)
            prod = ' * '.join('Permutation.cycle(*%r)' % c for c in cyc) or 'Permutation()'
            t.eq(L(prod), tr(w))
            t.eq('%s.cycle_repr()' % P(w), ''.join('(' + ', '.join(map(str, c)) + ')' for c in cyc if len(c) > 1) or '1')
    for i in range(1, 7):
        t.eq('Permutation.reflection_s(%d).oneline' % i, tuple(range(1, i)) + (-i,))
        t.eq('Permutation.reflection_s(%d)(%d)' % (i, -i), i)
    t.eq('H.tab(Permutation(2, 3, 1) * Tableau({(1, 1): (1, 2), (1, 2): 3}))', {(1, 1): (2, 3), (1, 2): (1,)})


@group('C08', limit=90)
def large_lengths(t):
    for _ in range(600 if t.deep else 150):
        w = rsigned(t.rng, t.rng.randint(0, 9))
        if t.rng.random() < .4:
            w = tuple(map(abs, w))
        w = tr(w)
        t.eq('(len(%s), %s.length)' % (P(w), P(w)), (length(w), length(w)))
        t.eq('(%s.right_descent_set, %s.left_descent_set)' % (P(w), P(w)), (rdes(w), ldes(w)))
        ex = '%s.get_reduced_word()' % P(w)
        r = t.ev(ex)
        x = ()
        for i in r:
            x = comp(x, gen(i))
        if len(r) != length(w) or x != w:
            t.fail(ex, 'a shortest factorization', r)
        if all(a > 0 for a in w):
            n = len(w)
            t.eq('tuple(%s.code())' % P(w), tuple(sum(1 for j in range(i + 1, n) if w[j] < w[i]) for i in range(n)))
            v = inv(w)
            code = sorted((sum(1 for j in range(i + 1, n) if v[j] < v[i]) for i in range(n)), reverse=True)
            t.eq('%s.shape()' % P(w), strip0(code))
        u = tr(rsigned(t.rng, t.rng.randint(0, 4)))
        if all(a > 0 for a in w) and len(w) <= 5:
            u = tr(map(abs, u))
            t.eq(L('%s %% %s' % (P(u), P(w))), dem(u, w))


def hecke_conj(word, base=()):
    w = base
    for i in word:
        if i in rdes(w):
            continue
        s = gen(i)
        a = comp(comp(s, w), s)
        w = comp(w, s) if a == w else a
    return w


@group('C08', limit=120)
def involution_hecke(t):
    """Words whose Demazure conjugation product is the given involution."""
    for n, ell in ((2, 4), (3, 4)):
        table = {}
        for k in range(ell + 1):
            for word in itertools.product(range(n), repeat=k):
                table.setdefault(hecke_conj(word), []).append(word)
        ws = [w for w in table if len(w) == n]
        for b in (ell, 1, ell - 1):
            for w in ws:
                t.eq('sorted(%s.get_involution_hecke_words(%d))' % (P(w), b), sorted(e for e in table[w] if len(e) <= b))
            t.eq('sorted(Permutation.involution_hecke_words(%d, %d))' % (n, b), sorted(e for w in table for e in table[w] if len(e) <= b))
    for n, ell in ((2, 3), (4, 4), (6, 3)):
        base = tuple(x for i in range(1, n, 2) for x in (i + 1, i))
        table = {base: [()]}
        level = [((), base)]
        for _ in range(ell):
            nxt = []
            for word, w in level:
                for i in range(1, n):
                    if at(w, i) == i + 1:
                        continue
                    v = w if i in rdes(w) else comp(comp(gen(i), w), gen(i))
                    nxt.append((word + (i,), v))
                    table.setdefault(v, []).append(word + (i,))
            level = nxt
        for b in (ell, 1, ell - 1, 0):
            for w in table:
                t.eq('sorted(%s.get_symplectic_hecke_words(%d))' % (P(w), b), sorted(e for e in table[w] if len(e) <= b))
        for asc in (1, 2):
            ok = lambda e: all(sum(1 for x, y in zip(e[:m], e[1:m]) if x <= y) < asc for m in range(len(e) + 1))
            for w in table:
                t.eq('sorted(%s.get_symplectic_hecke_words(%d, %d))' % (P(w), ell, asc), sorted(e for e in table[w] if ok(e)))


def invbelow(words_of, w, fpf):
    """Involutions one step below: a letter of a shortest word is dropped and the word stays shortest."""
    out = set()
    e = min(words_of[w])
    for i in range(len(e)):
        f = e[:i] + e[i + 1:]
        for v, es in words_of.items():
            if f in es:
                out.add(v)
    return out


@group('C08', limit=120)
def involution_order(t):
    for n in (3, 4):
        words_of, level = {(): {()}}, {(): {()}}
        while level:
            nxt = {}
            for w, es in level.items():
                for i in range(1, n):
                    if i in rdes(w):
                        continue
                    v = comp(comp(gen(i), w), gen(i))
                    v = comp(w, gen(i)) if v == w else v
                    nxt.setdefault(v, set()).update(e + (i,) for e in es)
            words_of.update(nxt)
            level = nxt
        for w, es in words_of.items():
            t.eq('sorted(%s.involution_words)' % P(w), sorted(es))
            t.eq('%s.involution_word in %r' % (P(w), es), True)
            t.eq('sorted({v.oneline for v in %s.involution_bruhat_covers()})' % P(w), sorted(invbelow(words_of, w, False)))
            full = w + tuple(range(len(w) + 1, n + 1))
            m = len(w)
            code = tuple(sum(1 for j in range(i + 1, m) if w[j] <= i + 1 and w[j] < w[i]) for i in range(m))
            t.eq('tuple(%s.involution_code())' % P(w), code)
            t.eq('sum(%s.involution_code())' % P(w), len(min(es)))
            mu = strip0(sorted(code, reverse=True))
            t.eq('%s.involution_shape()' % P(w), tuple(sum(1 for a in mu if a > j) for j in range(mu[0] if mu else 0)))
            D = sorted((i + 1, w[j]) for i in range(m) for j in range(i + 1, m) if w[i] > w[j])
            t.eq('(%s.involution_rothe_diagram(), %s.fpf_rothe_diagram())' % (P(w), P(w)), ([b for b in D if b[0] >= b[1]], [b for b in D if b[0] > b[1]]))
    for n in (2, 4, 6):
        base = tuple(x for i in range(1, n, 2) for x in (i + 1, i))
        words_of, level = {base: {()}}, {base: {()}}
        while level:
            nxt = {}
            for w, es in level.items():
                for i in range(1, n):
                    if i in rdes(w) or w[i - 1] == i + 1:
                        continue
                    nxt.setdefault(comp(comp(gen(i), w), gen(i)), set()).update(e + (i,) for e in es)
            words_of.update(nxt)
            level = nxt
        for w, es in words_of.items():
            if len(es) > 60:
                continue
            t.eq('sorted(%s.fpf_involution_words)' % P(w), sorted(es))
            t.eq('%s.fpf_involution_word in %r' % (P(w), es), True)
            m = len(w)
            code = tuple(sum(1 for j in range(i + 1, m) if w[j] < i + 1 and w[j] < w[i]) for i in range(m))
            t.eq('tuple(%s.fpf_involution_code())' % P(w), code)
            t.eq('sum(%s.fpf_involution_code())' % P(w), len(min(es)))
            mu = strip0(sorted(code, reverse=True))
            t.eq('%s.fpf_involution_shape()' % P(w), tuple(sum(1 for a in mu if a > j) for j in range(mu[0] if mu else 0)))
            for e in sorted(es)[:3]:
                if e and max(e) == n - 1:
                    t.eq('Permutation.from_fpf_involution_word(%r).oneline' % (e,), w)
                    i = e[-1]
                    t.eq('Permutation.from_fpf_involution_word(%r)' % (e + (i,),), None)
            pad = lambda v: tuple(v) + tuple(x for i in range(len(v) + 1, n, 2) for x in (i + 1, i))
            ex = '{v.oneline for v in %s.fpf_involution_bruhat_covers()}' % P(w)
            got = {pad(v) for v in t.ev(ex)}
            if got != invbelow(words_of, w, True):
                t.fail(ex, invbelow(words_of, w, True), got)


@group('C08', limit=90)
def atoms_d(t):
    """Shortest even-signed elements whose conjugation product (type D) is the involution."""
    def lenD(w):
        n = len(w)
        return sum((w[i] > w[j]) + (-w[i] > w[j]) for i in range(n) for j in range(i + 1, n))

    n = 3
    g = {i: gen(i) for i in range(1, n)}
    g[0] = (-2, -1)
    fill = lambda w: tuple(w) + tuple(range(len(w) + 1, n + 1))
    atoms, level = {(): {()}}, {(): {()}}
    while level:
        nxt = {}
        for z, as_ in level.items():
            for i, s in g.items():
                if lenD(fill(comp(z, s))) < lenD(fill(z)):
                    continue
                y = comp(comp(s, z), s)
                y = comp(z, s) if y == z else y
                nxt.setdefault(y, set()).update(comp(a, s) for a in as_)
        atoms.update(nxt)
        level = nxt
    for z, as_ in atoms.items():
        t.eq('sorted({a.oneline for a in %s.get_atoms_d()})' % P(z), sorted(as_))


# ------------------------------------------------------------------ C13, C14

@group('C13', limit=120)
def larger_ring(t):
    for _ in range(300 if t.deep else 40):
        n = t.rng.choice((3, 4, 5))
        a, b = (t.rng.choice([p for p in parts_upto(5 if n < 5 else 4) if len(p) <= n]) for _ in range(2))
        t.eq('H.poly((SymmetricMonomial(%d, %r) * SymmetricMonomial(%d, %r)).polynomial())' % (n, a, n, b), mul(monomial(a, n), monomial(b, n)))
        k = t.rng.randint(-3, 3)
        one = 'SymmetricMonomial(%d, %r)' % (n, a)
        t.eq('H.poly((%s * %d + 0 * %s).polynomial())' % (one, k, one), mul(con(k), monomial(a, n)))
        t.eq('H.poly((%d * %s - %s).polynomial())' % (k, one, one), mul(con(k - 1), monomial(a, n)))
        t.eq('H.poly((%s * polynomials.beta).polynomial())' % one, mul(var(0), monomial(a, n)))
        t.eq('H.poly((%s + %d).polynomial())' % (one, k), add(monomial(a, n), con(k)))
        t.eq('H.poly((%d + %s).polynomial())' % (k, one), add(monomial(a, n), con(k)))
        f = [(b, str(k)), (a, '2')] if a != b else [(b, str(k))]
        F = symsrc(f, n)
        t.eq('H.poly((%s * %s).polynomial())' % (one, F), mul(monomial(a, n), symref(f, n)))
        t.eq('H.poly((%s * %s).polynomial())' % (F, one), mul(monomial(a, n), symref(f, n))) if False else None
        t.eq('H.poly((%s + %s).polynomial())' % (one, F), add(monomial(a, n), symref(f, n)))
        if sum(a) <= 2 and n < 5:
            t.eq('H.poly((%s ** 2).polynomial())' % one, power(monomial(a, n), 2))
            t.eq('H.poly((%s ** 3).polynomial())' % F, power(symref(f, n), 3)) if sum(b) <= 2 else None
        t.eq('H.poly(%s.polynomial("y"))' % one, {tuple((-i, e) for i, e in reversed(m)): c for m, c in monomial(a, n).items()})


@group('C14', limit=150)
def free_expansion(t):
    for n in (1, 2, 3):
        for mu in [p for p in strict_upto(4) if 0 < len(p) <= n]:
            for c in ('1', '-2', 'beta'):
                t.eq('(lambda f: sum((c * H.prod(SymmetricPolynomial.dual_stable_grothendieck_p(%d, (a,)) for a in mu) for mu, c in SymmetricPolynomial.gp_free_expansion(f).items()), SymmetricPolynomial()) == f)'
                     '(%s * SymmetricPolynomial.dual_stable_grothendieck_p(%d, %r))' % (n, c, n, mu), True)


@group('C14', limit=150)
def larger_expansions(t):
    from .o_sym import BASES
    for ex, fn, st in BASES:
        slow = fn.startswith(('slow', 'stable', 'mn_'))
        for n in (2, 3, 4):
            top = {2: 7, 3: 6, 4: 4}[n] - (2 if slow else 0)
            shapes = [p for p in (strict_upto(top + 1) if st else parts_upto(top)) if len(p) <= n and sum(p) >= 3]
            if not shapes:
                continue
            B = lambda mu: 'SymmetricPolynomial.%s(%d, %r)' % (fn, n, mu)
            for _ in range(8 if t.deep else 2):
                combo = {mu: t.rng.choice(['1', '-2', 'beta', '(1 + beta)', '3', '(beta * beta - beta)', '-beta']) for mu in t.rng.sample(shapes, min(t.rng.randint(1, 3), len(shapes)))}
                src = ' + '.join('%s * %s' % (c, B(mu)) for mu, c in combo.items())
                t.eq('H.vec(SymmetricPolynomial.%s(%s)) == H.vec(Vector({%s}))' % (ex, src, ', '.join('%r: %s' % (mu, c) for mu, c in combo.items())), True)


# ------------------------------------------------------------------ C15

@group('C15', limit=90)
def generators(t):
    """The crystals of crystals.py: their edges are the operators on their elements."""
    cases = [('TableauCrystalGenerator(%r, %d)' % (mu, n), mu, n) for mu in [(1,), (2,), (1, 1), (2, 1), (2, 2), (3, 1)] for n in (2, 3) if len(mu) <= n and (sum(mu) < 4 or n < 3)]
    for src, mu, n in cases:
        # index i runs over 0, ..., n - 1; 0 never applies because no entry is 0
        ex = '(lambda c: sorted((H.key(c[x]), H.key(c[y]), i) for x, y, i in c.edges))(%s)' % src
        want = []
        Ts = ssyt(n, mu, (), True)
        for T in Ts:
            for i in range(0, n):
                r = t.ev('Tableau(%r).f_crystal_operator(%d, multisetvalued=False)' % (T, i))
                if r is not None:
                    want.append((tuple(sorted(T.items())), tuple(sorted(r.boxes.items())), i))
        t.eq(ex, sorted(want))
        t.eq('(lambda c: sorted(H.key(x) for x in c.elements))(%s)' % src, sorted(tuple(sorted(T.items())) for T in Ts))
        t.eq('(lambda c: sorted(x for comp in c.components for x in comp) == list(range(len(c))) and all(any(x in k and y in k for k in c.components) for x, y, i in c.edges))(%s)' % src, True)
    from .o_ins import prod
    for oneline, k, ln, dec in [((2, 1), 2, 2, False), ((2, 1), 3, 3, False), ((3, 2, 1), 2, 3, False), ((3, 2, 1), 3, 3, False), ((2, 3, 1), 3, 3, False), ((3, 2, 1), 2, 3, True), ((2, 1), 3, 3, True), ((3, 1, 2), 3, 3, True), ((3, 2, 1), 2, 4, False), ((3, 2, 1), 2, 4, True)]:
        src = 'WordCrystalGenerator(%r, %d, %d, %r)' % (oneline, k, ln, dec)
        want = []
        for w in itertools.product(range(1, len(oneline)), repeat=ln):
            if prod(w) != oneline:
                continue
            for rec in itertools.combinations_with_replacement(range(1, k + 1), ln):
                if all(rec[i] < rec[i + 1] or ((w[i] > w[i + 1]) if dec else (w[i] <= w[i + 1])) for i in range(ln - 1)):
                    want.append((w, rec))
        t.eq('sorted(%s.factorizations)' % src, sorted(want))
        # e_i is the inverse of f_i, the weight moves by one letter, every edge stays inside
        t.eq('(lambda c: all(sorted(c[y][1]) == sorted(c[x][1][:j] + (i + 1,) + c[x][1][j + 1:]) for x, y, i in c.edges for j in [c[x][1].index(i)]))(%s)' % src, True)
        t.eq('(lambda c: len({(x, i) for x, y, i in c.edges}) == len({(y, i) for x, y, i in c.edges}) == len(c.edges))(%s)' % src, True)
        ex = '(lambda c: [(c[x][1], i, phi) for x in range(len(c)) for i in range(1, %d) for phi in [H.strings(c.edges, x, i)]])(%s)' % (k, src)
        for rec, i, (p, e) in t.ev(ex):
            if p - e != rec.count(i) - rec.count(i + 1):
                t.fail(ex, 'phi - epsilon = difference of the weight', (rec, i, p, e))


@group('C15', limit=90)
def larger_words(t):
    for _ in range(3000 if t.deep else 600):
        n = t.rng.randint(0, 40)
        i = t.rng.randint(1, 4)
        p = t.rng.random()
        w = tuple((i if t.rng.random() < p else i + 1) if t.rng.random() < .8 else t.rng.randint(1, 6) for _ in range(n))
        f, e = fop(w, i), eop(w, i)
        t.eq('Word.f_crystal_operator(%d, %r)' % (i, w), f)
        t.eq('Word.e_crystal_operator(%d, %r)' % (i, w), e)
        un, st = free(w, i)
        for op, k in (('f', len(un)), ('e', len(st))):
            t.eq('H.iterate(lambda w: Word.%s_crystal_operator(%d, w), %r)' % (op, i, w), k)


@group('C15', limit=120)
def larger_tableaux(t):
    for _ in range(150 if t.deep else 40):
        n = t.rng.choice((3, 4))
        mu = t.rng.choice([(3, 2, 1), (4, 2), (2, 2, 2), (3, 1, 1), (4, 4), (5, 1)])
        T = randssyt(t.rng, n, mu, t.rng.choice((0, 2, 5)))
        if T is None:
            continue
        multi = t.rng.random() < .5 and False
        for i in range(1, n):
            for op, inv_, a, b in (('f', 'e', i, i + 1), ('e', 'f', i + 1, i)):
                ex = 'Tableau(%r).%s_crystal_operator(%d, multisetvalued=False)' % (T, op, i)
                r = t.ev(ex)
                t.note(ex)
                if r is not None:
                    R = r.boxes
                    if wt(R, a) != wt(T, a) - 1 or wt(R, b) != wt(T, b) + 1 or not legal(R, mu, False):
                        t.fail(ex, 'a tableau with one %d turned into %d' % (a, b), R)
                    t.eq('H.tab(%s.%s_crystal_operator(%d, multisetvalued=False))' % (ex, inv_, i), T)


def randssyt(rng, n, mu, extra):
    """A random set-valued semistandard tableau, or None."""
    T = {}
    for b in sorted(boxes(mu)):
        l, u = T.get((b[0], b[1] - 1)), T.get((b[0] - 1, b[1]))
        lo = max(l[-1] if l else 1, u[-1] + 1 if u else 1)
        hi = n - (len([1 for a in mu if a >= b[1]]) - b[0])
        if lo > hi:
            return None
        v = [rng.randint(lo, min(hi, lo + 1))]
        while extra and v[-1] < hi and rng.random() < .4:
            v.append(rng.randint(v[-1] + 1, hi))
            extra -= 1
        T[b] = tuple(v)
    return T


# ------------------------------------------------------------------ C12

@group('C12', limit=150)
def larger_functions(t):
    for mu, nu, n in [((3, 2), (1,), 3), ((2, 2, 1), (), 3), ((3, 3), (1, 1), 3), ((4, 1), (2,), 3), ((2, 1), (), 4), ((3, 1), (1,), 4), ((3, 2, 1), (2, 1), 3), ((2, 2), (), 4), ((6,), (), 2), ((5, 5), (), 2)]:
        k = sum(mu) - sum(nu)
        t.eq(SHAPE % ('SymmetricPolynomial.schur(%d, %r, %r)' % (n, mu, nu)), gf(ssyt(n, mu, nu), n))
        b, c = dual(k)
        t.eq(SHAPE % ('SymmetricPolynomial.dual_stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), gf(rpp(n, mu, nu), n, rpp_weight, b, c))
        if k < 5:
            t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck(%d, %r, %r)' % (n, mu, nu)), gf(ssyt(n, mu, nu, True), n, b=K(k)))
    for mu, nu, n in [((4, 2), (1,), 2), ((3, 2, 1), (), 3), ((5, 3), (3,), 2), ((4, 2, 1), (3,), 3), ((3, 1), (), 3), ((4, 3), (2, 1), 3), ((5, 2), (4,), 3)]:
        k = sum(mu) - sum(nu)
        for dp, nm in ((True, 'q'), (False, 'p')):
            t.eq(SHAPE % ('SymmetricPolynomial.schur_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(shifted_ssyt(n, mu, nu, dp), n))
            if k < 5 and n < 3 or k < 4:
                t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(shifted_ssyt(n, mu, nu, dp, True), n, b=K(k)))
                b, c = dual(k)
                g = gf(marked_rpp(n, mu, nu, dp), n, rpp_weight, b, c)
                t.eq(SHAPE % ('SymmetricPolynomial.dual_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), g)
                t.eq(SHAPE % ('SymmetricPolynomial._slow_dual_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), g)
                if k < 4 and n < 3:
                    t.eq(SHAPE % ('SymmetricPolynomial._slow_stable_grothendieck_%s(%d, %r, %r)' % (nm, n, mu, nu)), gf(shifted_ssyt(n, mu, nu, dp, True), n, b=K(k)))
    # one row and one column in many variables, from the closed forms
    for n in range(1, 6):
        for k in range(1, 5):
            h = {}
            for w in itertools.product(range(k + 1), repeat=n):
                if sum(w) == k:
                    h = add(h, {tuple((i + 1, e) for i, e in enumerate(w) if e): 1})
            t.eq(SHAPE % ('SymmetricPolynomial.schur(%d, %r)' % (n, (k,))), h)
            e = {tuple((i, 1) for i in s): 1 for s in itertools.combinations(range(1, n + 1), k)}
            t.eq(SHAPE % ('SymmetricPolynomial.schur(%d, %r)' % (n, (1,) * k)), e)
            ge = {}
            for m in range(k, n + 1):
                for s in itertools.combinations(range(1, n + 1), m):
                    from math import comb
                    ge[tuple(([(0, m - k)] if m > k else []) + [(i, 1) for i in s])] = comb(m - 1, k - 1)
            t.eq(SHAPE % ('SymmetricPolynomial.stable_grothendieck(%d, %r)' % (n, (1,) * k)), ge)


# ------------------------------------------------------------------ C19

@group('C19', limit=120)
def larger_operators(t):
    ops = (('operator_shifted_add', add_op), ('operator_shifted_row_remove', row_remove), ('operator_shifted_column_remove', col_remove))
    for _ in range(600 if t.deep else 150):
        mu = randpart(t.rng, 45, True)
        for d in range(0, (mu[0] if mu else 0) + 2):
            for name, f in ops:
                t.eq('H.vec(operators.%s(%d)(%r))' % (name, d, mu), show(f(d)(mu)))
    for _ in range(150 if t.deep else 40):
        ks = list({randpart(t.rng, 12, True) for _ in range(t.rng.randint(1, 3))})
        cs = [t.rng.choice((1, 2, -1)) for _ in ks]
        n = t.rng.randint(0, 5)
        src = 'Vector({%s})' % ', '.join('%r: %d' % kc for kc in zip(ks, cs))
        v = t.rng.choice((('operators.xvar', t.ev('H.poly(operators.xvar)')), ('operators.yvar', t.ev('H.poly(operators.yvar)')), ('polynomials.X(2)', var(2)), ('2', con(2))))
        for name, f, rng in (('operator_AL', add_op, range(0, n + 1)), ('operator_AR', add_op, range(n, -1, -1)), ('operator_R', row_remove, range(0, n + 1)), ('operator_C', col_remove, range(n, 0, -1))):
            a = {k: con(c) for k, c in zip(ks, cs)}
            for i in rng:
                a = vadd(a, smul(v[1], lin(f(i), a)))
            t.eq('H.vec(operators.%s(%d, %s)(%s))' % (name, n, v[0], src), show(a))
        t.eq('(lambda v: (operators.operator_AL(%d)(v), operators.operator_R(%d)(v), operators.operator_C(%d)(v), H.vec(v))[-1])(%s)' % (n, n, n, src), {k: c for k, c in zip(ks, cs)})


@group('C19')
def box_products(t):
    def good(w):
        return all(w[i] != w[i + 1] and w[i] != -w[i + 1] for i in range(len(w) - 1))
    for _ in range(600 if t.deep else 200):
        fs, ref = [], {(): 1}
        beta = 0
        for _ in range(3):
            terms = [(t.rng.randint(0, 2), tuple(t.rng.randint(-3, 3) for _ in range(t.rng.randint(0, 3))), t.rng.choice((1, -1, 2))) for _ in range(t.rng.randint(1, 3))]
            fs.append(' + '.join('%d * boxes.BoxOperator(%s)' % (c, ', '.join(map(str, (b,) + w))) for b, w, c in terms))
            new = {}
            for k, c in ref.items():
                for b, w, d in terms:
                    kb, kw = (k[0], k[1:]) if k else (0, ())
                    x = kw + w
                    if good(x) and good(w) or (good(x) and not k):
                        key = (kb + b,) + x
                        new[key] = new.get(key, 0) + c * d
            ref = {k: c for k, c in new.items() if c}
        # a single factor is not reduced when it is built, so start from the unit
        t.eq('H.vec((boxes.BoxOperator(0) * (%s) * (%s) * (%s)).vector)' % tuple(fs), ref)
    t.eq('H.vec(boxes.BoxOperator([0, 1, 2]).vector)', {(0, 1, 2): 1})
    t.eq('H.vec((1 + boxes.r(2)).vector)', {(0, 2): 1, (0,): 1})
    t.eq('H.vec((boxes.r(2) * polynomials.X(0) + boxes.c(2)).vector)', {(0, 2): {((0, 1),): 1}, (0, -2): 1})
    t.raises('boxes.BoxOperator(-1)')


# ------------------------------------------------------------------ C09, C03, C01

@group('C09')
def string_input(t):
    for T in [{(1, 1): (1,)}, {(1, 1): (-1, 2), (1, 2): (3,), (2, 1): (4,)}, {(2, 2): (5,), (1, 2): (-3,)}, {(1, 1): (12,), (3, 3): (-12,)}]:
        rows = []
        for i in range(1, max(i for i, j in T) + 1):
            rows.append(' '.join(','.join(("%d'" % -x) if x < 0 else str(x) for x in T[i, j]) if (i, j) in T else '.' for j in range(1, max(j for i, j in T) + 1)))
        t.eq('H.tab(Tableau(%r))' % ';'.join(rows), T)
        t.eq('H.tab(Tableau(%r))' % '\n'.join(rows), T)
    for mu in strict_upto(6):
        T = {}
        for i, j in sorted(shboxes(mu), key=lambda b: (b[1], b[0])):
            T[i, j] = len(T) + 1
        t.eq('Tableau(%r).is_shifted_column_superstandard()' % T, True)
        if len(T) > 1:
            ks = list(T)
            T[ks[0]], T[ks[1]] = T[ks[1]], T[ks[0]]
            t.eq('Tableau(%r).is_shifted_column_superstandard()' % T, False)
    for _ in range(60):
        mu = t.rng.choice(strict_upto(7))
        bx = sorted(shboxes(mu))
        vals = list(range(1, len(bx) + 1))
        t.rng.shuffle(vals)
        T = {b: v * t.rng.choice((1, 1, -1)) for b, v in zip(bx, vals)}
        pos = {abs(v): (b, v > 0) for b, v in T.items()}
        want = set()
        for i in range(1, len(bx)):
            (b, s), (c, u) = pos[i], pos[i + 1]
            if s and not u or (s and u and c[0] > b[0]) or (not s and not u and c[1] > b[1]):
                want.add(i)
        t.eq('Tableau(%r).descent_set()' % T, want)


@group('C03')
def vector_predicates(t):
    for d in ({}, {1: 1}, {1: 2}, {1: -1}, {1: 1, 2: 3}, {1: 1, 2: -3}, {(): 1}):
        t.eq('(Vector(%r).is_singleton(), Vector(%r).is_nonnegative(), Vector(%r).is_positive(), Vector(%r).is_zero(), len(Vector(%r)))' % ((d,) * 5),
             (list(d.values()) == [1], all(v > 0 for v in d.values()), bool(d) and all(v > 0 for v in d.values()), not d, len(d)))
