import itertools
from .base import group
from .mathdefs import *
from .o_tab import ssyt, weight


def words(n, k):
    return itertools.product(range(1, k + 1), repeat=n)


def free(w, i):
    """Unmatched positions in the rule that pairs each i+1 with a later i."""
    st, un = [], []
    for j, a in enumerate(w):
        if a == i + 1:
            st.append(j)
        elif a == i:
            if st:
                st.pop()
            else:
                un.append(j)
    return un, st


def fop(w, i):
    un, st = free(w, i)
    return None if not un else w[:un[-1]] + (i + 1,) + w[un[-1] + 1:]


def eop(w, i):
    un, st = free(w, i)
    return None if not st else w[:st[0]] + (i,) + w[st[0] + 1:]


@group('C15')
def word_crystals(t):
    for n in range(0, 7 if t.deep else 6):
        for w in words(n, 3):
            for i in (1, 2, 3):
                f, e = fop(w, i), eop(w, i)
                t.eq('Word.f_crystal_operator(%d, %r)' % (i, w), f)
                t.eq('Word.e_crystal_operator(%d, %r)' % (i, w), e)
                if f is not None:
                    assert eop(f, i) == w
                    t.eq('Word.e_crystal_operator(%d, Word.f_crystal_operator(%d, %r))' % (i, i, w), w)
                if e is not None:
                    t.eq('Word.f_crystal_operator(%d, Word.e_crystal_operator(%d, %r))' % (i, i, w), w)
    for _ in range(2000 if t.deep else 500):
        n = t.rng.randint(6, 24)
        i = t.rng.randint(1, 3)
        w = tuple(t.rng.choice((i, i + 1, i + 1, i, t.rng.randint(1, 5))) for _ in range(n))
        t.eq('Word.f_crystal_operator(%d, %r)' % (i, w), fop(w, i))
        t.eq('Word.e_crystal_operator(%d, %r)' % (i, w), eop(w, i))
        cuts = sorted(t.rng.randint(0, n) for _ in range(t.rng.randint(1, 4)))
        parts = [w[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        for op, fn in (('f', fop), ('e', eop)):
            r = fn(w, i)
            want = None if r is None else tuple(r[a:b] for a, b in zip([0] + cuts, cuts + [n]))
            t.eq('Word.%s_crystal_operator(%d, *%r)' % (op, i, parts), want)
            t.eq('Word.%s_crystal_operator(%d, %r, unpack=False)' % (op, i, w), None if r is None else (r,))
    t.eq('Word.f_crystal_operator(1)', None)
    t.eq('Word.e_crystal_operator(1)', None)


def multiset_ssyt(n, mu, size):
    """Multiset-valued semistandard tableaux with at most size extra entries."""
    bx = sorted(boxes(mu))
    sets = []
    for k in range(1, size + 2):
        sets += list(itertools.combinations_with_replacement(range(1, n + 1), k))
    out = []

    def rec(idx, T, extra):
        if idx == len(bx):
            out.append(dict(T))
            return
        b = bx[idx]
        for v in sets:
            if len(v) - 1 > extra:
                continue
            l, u = T.get((b[0], b[1] - 1)), T.get((b[0] - 1, b[1]))
            if l and l[-1] > v[0] or u and u[-1] >= v[0]:
                continue
            T[b] = v
            rec(idx + 1, T, extra - len(v) + 1)
            del T[b]
    rec(0, {}, size)
    return out


def wt(T, i):
    return sum(v.count(i) for v in T.values())


@group('C15', limit=90)
def tableau_crystals(t):
    cases = [(3, mu) for mu in parts_upto(4) if len(mu) <= 3] + [(2, (3, 2)), (2, (5,)), (3, (3, 2))]
    for n, mu in cases:
        for multi in (False, True):
            if multi:
                dom = multiset_ssyt(n, mu, 2 if sum(mu) < 4 else 1)
            else:
                dom = [T for T in ssyt(n, mu, (), True) if sum(map(len, T.values())) <= sum(mu) + 2]
            if len(dom) > (4000 if t.deep else 500):
                dom = t.rng.sample(dom, 4000 if t.deep else 500)
            for T in dom:
                for i in range(1, n):
                    fl = []
                    for op, inv, a, b in (('f', 'e', i, i + 1), ('e', 'f', i + 1, i)):
                        ex = 'Tableau(%r).%s_crystal_operator(%d, multisetvalued=%r)' % (T, op, i, multi)
                        r = t.ev(ex)
                        t.note(ex)
                        if r is not None:
                            R = r.boxes
                            if wt(R, a) != wt(T, a) - 1 or wt(R, b) != wt(T, b) + 1 or any(wt(R, c) != wt(T, c) for c in range(1, n + 2) if c not in (a, b)):
                                t.fail(ex, 'one %d turned into one %d' % (a, b), R)
                            if not legal(R, mu, multi):
                                t.fail(ex, 'a semistandard tableau of shape %r' % (mu,), R)
                            t.eq('H.tab(%s.%s_crystal_operator(%d, multisetvalued=%r))' % (ex, inv, i, multi), T)
                        # string lengths
                        k, x = 0, r
                        while x is not None and k < 30:
                            k += 1
                            x = getattr(x, op + '_crystal_operator')(i, multisetvalued=multi)
                        fl.append(k)
                    if fl[0] - fl[1] != wt(T, i) - wt(T, i + 1):
                        t.fail('Tableau(%r)' % (T,), 'phi_%d - epsilon_%d = %d' % (i, i, wt(T, i) - wt(T, i + 1)), fl)


def legal(R, mu, multi):
    if set(R) != boxes(mu):
        return False
    for (i, j), v in R.items():
        if list(v) != sorted(v) or (not multi and len(set(v)) != len(v)):
            return False
        l, u = R.get((i, j - 1)), R.get((i - 1, j))
        if l and l[-1] > v[0] or u and u[-1] >= v[0]:
            return False
    return True


@group('C15')
def reading_words(t):
    for n, mu in [(3, (2, 1)), (2, (2, 2)), (3, (1, 1, 1)), (3, (3,)), (2, ()), (3, (3, 1)), (3, (2, 2, 1))]:
        for T in multiset_ssyt(n, mu, 2 if len(mu) < 3 else 1):
            cols = []
            for j in range(1, (mu[0] if mu else 0) + 1):
                col = [T[i, j] for i in range(1, len(mu) + 1) if (i, j) in T]
                cols.append(tuple(v[0] for v in reversed(col)) + tuple(x for v in col for x in v[1:]))
            t.eq('Tableau(%r).crystal_reading_word()' % (T,), tuple(cols))
            t.eq('H.tab(Tableau.from_crystal_reading_word(%r))' % (tuple(cols),), T)
    t.eq('Tableau.from_crystal_reading_word(None)', None)


@group('C15')
def factorizations(t):
    for n in range(0, 6):
        for w in words(n, 3):
            for k in range(0, 4):
                for dec in (False, True):
                    want = []
                    for cuts in itertools.combinations_with_replacement(range(n + 1), max(k - 1, 0)):
                        c = (0,) + cuts + (n,)
                        parts = tuple(w[a:b] for a, b in zip(c, c[1:])) if k else ()
                        if k == 0 and n:
                            continue
                        if all(all((x > y) if dec else (x <= y) for x, y in zip(p, p[1:])) for p in parts):
                            want.append(parts)
                    t.eq('sorted(WordCrystalGenerator.get_increasing_factorizations(%r, %d, %r))' % (w, k, dec), sorted(want))
                    for tup in want[:3]:
                        t.eq('WordCrystalGenerator.factorization_tuple_to_array(%r)' % (tup,), (w, tuple(i + 1 for i, p in enumerate(tup) for _ in p)))


def inc(w):
    return all(a < b for a, b in zip(w, w[1:]))


def dec(w):
    return all(a > b for a, b in zip(w, w[1:]))


def winc(w):
    return all(a <= b for a, b in zip(w, w[1:]))


def wdec(w):
    return all(a >= b for a, b in zip(w, w[1:]))


def z(f):
    return lambda w: 1 if f(w) else 0


def uni(f, g):
    return lambda w: sum(1 for i in range(len(w) + 1) if f(w[:i]) and g(w[i:]))


ZETAS = {'increasing_zeta': z(inc), 'decreasing_zeta': z(dec), 'weakly_increasing_zeta': z(winc), 'weakly_decreasing_zeta': z(wdec),
         'unimodal_zeta': uni(dec, inc), 'right_weakly_unimodal_zeta': uni(dec, winc), 'left_weakly_unimodal_zeta': uni(wdec, inc),
         'weakly_unimodal_zeta': uni(wdec, winc)}


def quasi(w, zeta):
    out = {}
    for c in compositions(len(w)):
        p, i = 1, 0
        for a in c:
            p *= zeta(w[i:i + a])
            i += a
        if p:
            out[c] = p
    return out


def mypeaks(v):
    """Greedy count of weak peaks, one for the remainder."""
    if not v:
        return 0
    for i in range(1, len(v) - 1):
        if v[i - 1] <= v[i] >= v[i + 1]:
            return 1 + mypeaks(v[i + 1:])
    return 1


@group('C18', limit=90)
def word_stats(t):
    for n in range(0, 7 if t.deep else 6):
        for w in words(n, 3 if n < 6 else 2):
            t.eq('Word.descent_set(%r)' % (w,), {i + 1 for i in range(n - 1) if w[i] > w[i + 1]})
            t.eq('Word.ascents(%r)' % (w,), sum(1 for i in range(n - 1) if w[i] <= w[i + 1]))
            t.eq('Word.peaks(%r)' % (w,), mypeaks(w))
            for name, fn in ZETAS.items():
                t.eq('Word.%s(%r)' % (name, w), fn(w))
                if n < 5 or (w[0] + 2 * w[-1]) % 5 == 0:
                    t.eq('H.vec(Word.quasisymmetrize(%r, Word.%s))' % (w, name), quasi(w, fn))
    for _ in range(200):
        n = t.rng.randint(5, 9)
        w = tuple(t.rng.randint(1, 4) for _ in range(n))
        sgn = tuple(x * t.rng.choice((1, -1)) for x in w)
        lst = list(w)
        for name, fn in ZETAS.items():
            t.eq('Word.%s(%r)' % (name, w), fn(w))
            t.eq('Word.%s(%r)' % (name, sgn), fn(sgn))
            t.eq('Word.%s(%r)' % (name, lst), fn(w))
        t.eq('Word.descent_set(%r)' % (sgn,), {i + 1 for i in range(n - 1) if sgn[i] > sgn[i + 1]})
        t.eq('Word.ascents(%r)' % (sgn,), sum(1 for i in range(n - 1) if sgn[i] <= sgn[i + 1]))
        t.eq('Word.peaks(%r)' % (sgn,), mypeaks(sgn))
    for n in range(0, 7):
        w = tuple(range(n))
        t.eq('H.vec(Word.quasisymmetrize(%r, lambda x: len(x) - 2))' % (w,), quasi(w, lambda x: len(x) - 2))
        t.eq('H.vec(Word.quasisymmetrize(%r, lambda x: 1))' % (w,), quasi(w, lambda x: 1))
        t.eq('H.vec(Word.quasisymmetrize(%r, lambda x: x[0] if x else 7))' % (w,), quasi(w, lambda x: x[0]))
    for n in range(1, 7):
        for c in compositions(n):
            mu = tuple(sum(c[i:]) for i in range(len(c)))
            t.eq('utils.shifted_ribbon(%r)' % (c,), (mu, mu[1:]))
