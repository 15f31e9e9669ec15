import itertools
from functools import lru_cache
from .base import group
from .mathdefs import *

# entries are ordered 1' < 1 < 2' < 2 < ... ; v' is written -v


def order(v):
    return 2 * v if v > 0 else -2 * v - 1


def sub(n, single):
    return None


def fillings(cells, alphabet, right, down, ok=lambda i, j, vs: True, setvalued=False):
    """All fillings of the cells by nonempty (sorted) tuples over the alphabet; right(a, b) and
    down(a, b) say whether entry a may be left of / below entry b."""
    cells = sorted(cells)
    if setvalued:
        options = [tuple(sorted(c)) for k in range(1, len(alphabet) + 1) for c in itertools.combinations(alphabet, k)]
    else:
        options = [(a,) for a in alphabet]
    out = []
    T = {}

    def rec(k):
        if k == len(cells):
            out.append(dict(T))
            return
        i, j = cells[k]
        for vs in options:
            if not ok(i, j, vs):
                continue
            l, d = T.get((i, j - 1)), T.get((i - 1, j))
            if l is not None and not all(right(a, b) for a in l for b in vs):
                continue
            if d is not None and not all(down(a, b) for a in d for b in vs):
                continue
            T[(i, j)] = vs
            rec(k + 1)
            del T[(i, j)]
    rec(0)
    return out


def row_ok(a, b):
    return order(a) < order(b) or (a == b and a > 0)


def col_ok(a, b):
    return order(a) < order(b) or (a == b and a < 0)


def weak(a, b):
    return order(a) <= order(b)


def marked(n):
    return [s * v for v in range(1, n + 1) for s in (-1, 1)]


def plain(n):
    return list(range(1, n + 1))


def ssyt(n, mu, nu=(), sv=False):
    return fillings(boxes(mu) - boxes(nu), plain(n), row_ok, col_ok, setvalued=sv)


def marked_ssyt(n, mu, nu=(), sv=False):
    return fillings(boxes(mu) - boxes(nu), marked(n), row_ok, col_ok, setvalued=sv)


def shifted_ssyt(n, mu, nu=(), dp=True, sv=False):
    ok = (lambda i, j, vs: True) if dp else (lambda i, j, vs: i != j or all(v > 0 for v in vs))
    return fillings(shboxes(mu) - shboxes(nu), marked(n), row_ok, col_ok, ok, sv)


def rpp(n, mu, nu=()):
    return fillings(boxes(mu) - boxes(nu), plain(n), weak, weak)


def marked_rpp(n, mu, nu=(), nonprimes=True):
    ok = (lambda i, j, vs: True) if nonprimes else (lambda i, j, vs: i != j or all(v < 0 for v in vs))
    return fillings(shboxes(mu) - shboxes(nu), marked(n), weak, weak, ok)


def weight(T, n):
    w = [0] * n
    for vs in T.values():
        for v in vs:
            w[abs(v) - 1] += 1
    return tuple(w)


def rpp_weight(T, n):
    w = [set() for _ in range(n)]
    for (i, j), vs in T.items():
        for v in vs:
            w[abs(v) - 1].add(('c', j) if v > 0 else ('r', i))
    return tuple(map(len, w))


def counts(Ts, n, wt=weight):
    out = {}
    for T in Ts:
        w = wt(T, n)
        if all(a >= b for a, b in zip(w, w[1:])):
            w = strip0(w)
            out[w] = out.get(w, 0) + 1
    return out


def fz(Ts):
    return sorted(sorted(T.items()) for T in Ts)


KEY = 'sorted(sorted(T.boxes.items()) for T in %s)'


def pairs(n, strict=False, m=None):
    for mu in (strict_upto(n) if strict else parts_upto(n)):
        for nu in subs(mu, strict):
            if m is None or sum(mu) - sum(nu) <= m:
                yield mu, nu


# ---------------------------------------------------------------- C10


def strip_list(mu, lam, sh, good):
    bx = shboxes if sh else boxes
    cand = [nu for nu in subs(mu, sh) if contains(nu, lam) and good(bx(mu) - bx(nu))]
    out = []
    for nu in cand:
        cor = []
        for i in range(len(nu)):
            x = list(nu)
            x[i] -= 1
            x = strip0(x)
            if x in cand:
                cor.append((i + 1, nu[i] + (i if sh else 0)))
        out.append((nu, sorted(bx(mu) - bx(nu)), sorted(cor)))
    return sorted(out)


def hor(d):
    return all((i + 1, j) not in d for i, j in d) and all(j != l or i == k for i, j in d for k, l in d)


def ver(d):
    return all(i != k or j == l for i, j in d for k, l in d)


@group('C10', limit=90)
def strips(t):
    n = 8 if t.deep else 7
    fmt = 'sorted((nu, sorted(d), sorted(c)) for nu, d, c in Tableau.%s(%r, %r))'
    for mu in parts_upto(n):
        for lam in subs(mu):
            for rnd in range(2):
                t.eq(fmt % ('_horizontal_strips', mu, lam), strip_list(mu, lam, False, hor))
                t.eq(fmt % ('_vertical_strips', mu, lam), strip_list(mu, lam, False, ver))
    for mu in strict_upto(n + 2):
        for lam in subs(mu, True):
            t.eq(fmt % ('_shifted_horizontal_strips', mu, lam), strip_list(mu, lam, True, hor))
            t.eq(fmt % ('_shifted_vertical_strips', mu, lam), strip_list(mu, lam, True, ver))
    for mu, lam in itertools.product(parts_upto(4), repeat=2):
        if not contains(mu, lam):
            t.eq('(Tableau._horizontal_strips(%r, %r), Tableau._vertical_strips(%r, %r))' % (mu, lam, mu, lam), ([], []))


@group('C10', limit=90)
def rpp_strips(t):
    n = 7 if t.deep else 6
    fmt = 'sorted((nu, sorted(d)) for nu, d in Tableau.%s)'
    for mu in parts_upto(n):
        for lam in subs(mu):
            want = sorted((nu, sorted(boxes(mu) - boxes(nu))) for nu in subs(mu) if contains(nu, lam))
            t.eq(fmt % ('_rpp_horizontal_strips(%r, %r)' % (mu, lam)), want)
            t.eq(fmt % ('_rpp_vertical_strips(%r, %r)' % (mu, lam)), want)
    for mu in strict_upto(n + 3):
        want = sorted((nu, sorted(shboxes(mu) - shboxes(nu))) for nu in subs(mu, True))
        t.eq(fmt % ('_shifted_rpp_horizontal_strips(%r)' % (mu,)), want)
        t.eq(fmt % ('_shifted_rpp_vertical_strips(%r)' % (mu,)), want)
    for mu, lam in itertools.product(parts_upto(4), repeat=2):
        if not contains(mu, lam):
            t.eq('Tableau._rpp_horizontal_strips(%r, %r)' % (mu, lam), [])


# ---------------------------------------------------------------- C11


@group('C11', limit=120)
def enum_ssyt(t):
    for mu, nu in pairs(5):
        for n in range(0, 4 if sum(mu) - sum(nu) < 5 else 3):
            Ts = ssyt(n, mu, nu)
            t.eq(KEY % ('Tableau.semistandard(%d, %r, %r)' % (n, mu, nu)), fz(Ts))
            t.eq('dict(Tableau.count_semistandard(%d, %r, %r))' % (n, mu, nu), counts(Ts, n))
            if sum(mu) - sum(nu) < 5:
                Ts = ssyt(n, mu, nu, True)
                if len(Ts) < 800:
                    t.eq(KEY % ('Tableau.semistandard_setvalued(%d, %r, %r)' % (n, mu, nu)), fz(Ts))
                t.eq('dict(Tableau.count_semistandard_setvalued(%d, %r, %r))' % (n, mu, nu), counts(Ts, n))
    for mu in parts_upto(4):
        for n in range(4):
            t.eq(KEY % ('Tableau.semistandard(%d, %r)' % (n, mu)), fz(ssyt(n, mu)))
    for mu, nu in itertools.product(parts_upto(3), repeat=2):
        if not contains(mu, nu):
            t.eq('[len(f(2, %r, %r)) for f in (Tableau.semistandard, Tableau.semistandard_setvalued, Tableau.semistandard_marked, Tableau.semistandard_rpp, Tableau.count_semistandard)]' % (mu, nu), [0] * 5)


@group('C11', limit=120)
def enum_marked(t):
    for mu, nu in pairs(5, m=4):
        for n in range(0, 3):
            Ts = marked_ssyt(n, mu, nu)
            t.eq(KEY % ('Tableau.semistandard_marked(%d, %r, %r)' % (n, mu, nu)), fz(Ts))
            t.eq('dict(Tableau.count_semistandard_marked(%d, %r, %r))' % (n, mu, nu), counts(Ts, n))
            if sum(mu) - sum(nu) < 4:
                Ts = marked_ssyt(n, mu, nu, True)
                if len(Ts) < 800:
                    t.eq(KEY % ('Tableau.semistandard_marked_setvalued(%d, %r, %r)' % (n, mu, nu)), fz(Ts))
                t.eq('dict(Tableau.count_semistandard_marked_setvalued(%d, %r, %r))' % (n, mu, nu), counts(Ts, n))


@group('C11', limit=120)
def enum_shifted(t):
    for dp in (True, False):
        for mu, nu in pairs(6, True, m=5):
            for n in range(0, 3):
                Ts = shifted_ssyt(n, mu, nu, dp)
                t.eq(KEY % ('Tableau.semistandard_shifted_marked(%d, %r, %r, diagonal_primes=%r)' % (n, mu, nu, dp)), fz(Ts))
                t.eq('dict(Tableau.count_semistandard_shifted_marked(%d, %r, %r, %r))' % (n, mu, nu, dp), counts(Ts, n))
                if sum(mu) - sum(nu) < 4:
                    Ts = shifted_ssyt(n, mu, nu, dp, True)
                    if len(Ts) < 800:
                        t.eq(KEY % ('Tableau.semistandard_shifted_marked_setvalued(%d, %r, %r, %r)' % (n, mu, nu, dp)), fz(Ts))
                        t.eq(KEY % ('Tableau.semistandard_shifted_setvalued(%d, %r, %r, %r)' % (n, mu, nu, dp)), fz(Ts))
                    t.eq('dict(Tableau.count_semistandard_shifted_marked_setvalued(%d, %r, %r, %r))' % (n, mu, nu, dp), counts(Ts, n))
        for mu, nu in pairs(5, True, m=4):
            Ts = shifted_ssyt(3, mu, nu, dp)
            t.eq('dict(Tableau.count_semistandard_shifted_marked(%d, %r, %r, %r))' % (3, mu, nu, dp), counts(Ts, 3))


@group('C11', limit=120)
def enum_rpp(t):
    for mu, nu in pairs(5):
        for n in range(0, 4 if sum(mu) - sum(nu) < 5 else 3):
            Ts = rpp(n, mu, nu)
            t.eq(KEY % ('Tableau.semistandard_rpp(%d, %r, %r)' % (n, mu, nu)), fz(Ts))
            t.eq('dict(Tableau.count_semistandard_rpp(%d, %r, %r))' % (n, mu, nu), counts(Ts, n, rpp_weight))
            t.eq('sorted(T.weight(%d) for T in Tableau.semistandard_rpp(%d, %r, %r))' % (n, n, mu, nu), sorted(rpp_weight(T, n) for T in Ts))
    for np in (True, False):
        for mu, nu in pairs(6, True, m=4):
            for n in range(0, 3):
                Ts = marked_rpp(n, mu, nu, np)
                t.eq(KEY % ('Tableau.semistandard_marked_rpp(%d, %r, %r, %r)' % (n, mu, nu, np)), fz(Ts))
                t.eq('dict(Tableau.count_semistandard_marked_rpp(%d, %r, %r, diagonal_nonprimes=%r))' % (n, mu, nu, np), counts(Ts, n, rpp_weight))
                t.eq('sorted(T.weight(%d) for T in Tableau.semistandard_marked_rpp(%d, %r, %r, %r))' % (n, n, mu, nu, np), sorted(rpp_weight(T, n) for T in Ts))


@group('C11', limit=120)
def enum_standard(t):
    for mu, nu in pairs(6 if t.deep else 5):
        n = sum(mu) - sum(nu)
        Ts = [T for T in (ssyt(n, mu, nu) if n < 6 else []) if weight(T, n) == (1,) * n]
        if n < 6:
            t.eq(KEY % ('Tableau.standard(%r, %r)' % (mu, nu)), fz(Ts))
    for dp in (True, False):
        for mu, nu in pairs(6, True, m=4):
            n = sum(mu) - sum(nu)
            Ts = [T for T in shifted_ssyt(n, mu, nu, dp) if weight(T, n) == (1,) * n]
            t.eq(KEY % ('Tableau.standard_shifted_marked(%r, %r, %r)' % (mu, nu, dp)), fz(Ts))
            if not dp:
                t.eq(KEY % ('Tableau.standard_shifted_marked(%r, %r)' % (mu, nu)), fz(Ts))


# ---------------------------------------------------------------- C09


def tb(T):
    return 'Tableau(%r)' % (T,)


def random_tab(t, k=6, setv=True, signed=True):
    T = {}
    for _ in range(t.rng.randint(0, k)):
        b = (t.rng.randint(1, 4), t.rng.randint(1, 4))
        m = t.rng.randint(1, 3) if setv and t.rng.random() < .4 else 1
        T[b] = tuple(sorted(t.rng.choice([1, 2, 3, 4, 5] + ([-1, -2, -3] if signed else [])) for _ in range(m)))
    return T


@group('C09', limit=60)
def updates(t):
    B = 'H.tab(%s)'
    for n in range(400 if not t.deep else 4000):
        T = random_tab(t)
        s = tb(T)
        t.eq(B % s, T)
        t.eq(B % tb({k: v[0] if len(v) == 1 else v[::-1] for k, v in T.items()}), T)
        t.eq('(%s.size(), len(%s), bool(%s), %s.abs_sum())' % (s, s, s, s), (len(T), sum(map(len, T.values())), bool(T), sum(abs(x) for v in T.values() for x in v)))
        t.eq('list(%s)' % s, [(i, j, T[i, j]) for i, j in sorted(T)])
        t.eq(B % ('%s.transpose()' % s), {(j, i): v for (i, j), v in T.items()})
        t.eq(B % ('%s.double()' % s), {b: tuple(2 * x for x in v) for b, v in T.items()})
        t.eq(B % ('%s.double().halve()' % s), T)
        t.eq(B % ('%s.negate(False)' % s), {b: tuple(sorted(-x for x in v)) for b, v in T.items()})
        t.eq(B % ('%s.negate()' % s), {b: tuple(sorted((-x if b[0] != b[1] else x) for x in v)) for b, v in T.items()})
        t.eq('%s.counter()' % s, {x: sum(v.count(x) for v in T.values()) for x in {x for v in T.values() for x in v}})
        t.eq('%s.values()' % s, {x for v in T.values() for x in v})
        t.eq('%s.weight(5)' % s, weight(T, 5))
        t.eq('%s.setvalued_excess()' % s, sum(len(v) - 1 for v in T.values()))
        m = max([abs(x) for v in T.values() for x in v], default=0)
        t.eq('%s.weight()' % s, weight(T, m))
        t.eq('(%s.max_row(), %s.max_column())' % (s, s), (max([i for i, j in T], default=0), max([j for i, j in T], default=0)))
        t.eq('%s.shape()' % s, tuple(sum(1 for b in T if b[0] == i) for i in range(1, max([i for i, j in T], default=0) + 1)))
        rw = tuple(x for b in sorted(T, key=lambda b: (-b[0], b[1])) for x in T[b])
        cw = tuple(x for b in sorted(T, key=lambda b: (b[1], -b[0])) for x in T[b])
        t.eq('(%s.row_reading_word(), %s.column_reading_word())' % (s, s), (rw, cw))
        t.eq('%s.shifted_reading_word()' % s, tuple(-a for a in reversed(cw) if a < 0) + tuple(a for a in rw if a > 0))
        for i in range(1, 6):
            t.eq(B % ('%s.get_row(%d)' % (s, i)), {b: v for b, v in T.items() if b[0] == i})
            t.eq(B % ('%s.get_column(%d)' % (s, i)), {b: v for b, v in T.items() if b[1] == i})
            a, c = t.rng.randint(0, 5), t.rng.randint(0, 5)
            t.eq(B % ('%s.get_row(%d, before=%d, after=%d)' % (s, i, a, c)), {b: v for b, v in T.items() if b[0] == i and c < b[1] < a})
            t.eq(B % ('%s.get_column(%d, before=%d, after=%d)' % (s, i, a, c)), {b: v for b, v in T.items() if b[1] == i and c < b[0] < a})
            t.eq('(%s.last_box_in_row(%d), %s.last_box_in_column(%d), %s.max_row(%d), %s.max_column(%d))' % (s, i, s, i, s, i, s, i),
                 (max([j for k, j in T if k == i], default=None), max([k for k, j in T if j == i], default=None), max([k for k, j in T if j == i], default=0), max([j for k, j in T if k == i], default=0)))
        for b in list(T)[:3] + [(t.rng.randint(1, 5), t.rng.randint(1, 5)) for _ in range(3)]:
            v = t.rng.choice([1, 2, 3, -1, -2])
            args = (s,) + b
            t.eq('(%r in %s, %s.contains_box(%d, %d))' % (b, s, s, b[0], b[1]), (b in T, b in T))
            got = T.get(b)
            t.eq('%s.get(%d, %d, unpack=False)' % args, got)
            t.eq('%s.get(%d, %d)' % args, got[0] if got and len(got) == 1 else got)
            if not got:
                t.eq('%s.get(%d, %d, 77)' % args, 77)
            keep = lambda e: '(lambda t0: (H.tab(%s), H.tab(t0)))(%s)' % (e, s)
            t.eq(keep('t0.add(%d, %d, %d)' % (b + (v,))), ({**T, b: tuple(sorted(T.get(b, ()) + (v,)))}, T))
            t.eq(keep('t0.set(%d, %d, %d)' % (b + (v,))), ({**T, b: (v,)}, T))
            t.eq(keep('t0.set(%d, %d, (3, %d))' % (b + (v,))), ({**T, b: tuple(sorted((3, v)))}, T))
            if b in T:
                t.eq(keep('t0.replace(%d, %d, %d)' % (b + (v,))), ({**T, b: (v,)}, T))
                t.eq(keep('t0.clear(%d, %d)' % b), ({k: x for k, x in T.items() if k != b}, T))
                t.eq(keep('t0.remove(%d, %d)' % b), ({k: x for k, x in T.items() if k != b}, T))
                x = t.rng.choice(T[b])
                rest = list(T[b])
                rest.remove(x)
                want = {k: y for k, y in T.items() if k != b}
                if rest:
                    want[b] = tuple(rest)
                t.eq(keep('t0.remove(%d, %d, %d)' % (b + (x,))), (want, T))
            else:
                t.raises('%s.remove(%d, %d)' % args)
                t.raises('%s.clear(%d, %d)' % args)
                t.raises('%s.replace(%d, %d, 1)' % args)
        for v in range(-3, 6):
            if v:
                t.eq('%s.find(%d)' % (s, v), sorted(b for b in T if v in T[b]))


@group('C09', limit=60)
def predicates(t):
    for n in range(1200 if not t.deep else 12000):
        # random fillings, biased to be nearly semistandard
        mu = t.rng.choice(parts_upto(5))
        sh = t.rng.random() < .5 and is_strict(mu)
        cells = sorted(shboxes(mu) if sh else boxes(mu))
        T = {}
        for i, j in cells:
            lo = max([order(x) for b in ((i, j - 1), (i - 1, j)) if b in T for x in T[b]] + [1])
            vs = set()
            for _ in range(t.rng.choice([1, 1, 1, 2])):
                o = max(1, lo + t.rng.choice([0, 0, 0, 1, 1, 2, -1]))
                vs.add(o // 2 if o % 2 == 0 else -(o + 1) // 2)
            T[i, j] = tuple(sorted(vs))
        for dp in (True, False):
            good = all((dp or i != j or all(v > 0 for v in vs)) and
                       all(row_ok(a, b) for a in vs for b in T.get((i, j + 1), ())) and all(col_ok(a, b) for a in vs for b in T.get((i + 1, j), ()))
                       for (i, j), vs in T.items())
            t.eq('%s.is_semistandard(diagonal_primes=%r)' % (tb(T), dp), good)
            if not dp:
                t.eq('%s.is_semistandard()' % tb(T), good)
                vals = sorted(abs(v) for vs in T.values() for v in vs)
                t.eq('%s.is_standard()' % tb(T), good and vals == list(range(1, len(vals) + 1)))
    for mu in parts_upto(4):
        for T in ssyt(3, mu):
            s = tb(T)
            ent = sorted(((v, b[1], b[0]) for b, vs in T.items() for v in vs))
            t.eq('H.tab(%s.standardize())' % s, {(i, j): (k + 1,) for k, (v, j, i) in enumerate(ent)})
            t.eq('H.tab(Tableau.from_row_reading_word(%s.row_reading_word()))' % s, T)


@group('C02', limit=60)
def tab_equality(t):
    for n in range(600 if not t.deep else 6000):
        T = random_tab(t)
        items = [(b, x) for b, v in T.items() for x in v]
        t.rng.shuffle(items)
        built = 'Tableau()' + ''.join('.add(%d, %d, %d)' % (b + (x,)) for b, x in items)
        t.true('H.same(%s, %s)' % (tb(T), built))
        t.true('H.same(%s, %s.transpose().transpose())' % (tb(T), built))
        it = list(T.items())
        t.rng.shuffle(it)
        t.true('H.same(%s, %s)' % (tb(dict(it)), built))
        t.true('H.same(%s, %s.add(7, 7, 1).remove(7, 7))' % (tb(T), built))
        U = random_tab(t)
        if U != T:
            t.true('H.differ(%s, %s)' % (tb(T), tb(U)))
        t.true('H.differ(%s, %s.add(%d, %d, 9))' % (tb(T), built, t.rng.randint(1, 4), t.rng.randint(1, 4)))
        if T:
            b = t.rng.choice(list(T))
            x = t.rng.choice(T[b])
            t.true('H.differ(%s, %s.remove(%d, %d, %d))' % (tb(T), built, b[0], b[1], x))
            V = dict(T)
            V[b] = tuple(sorted(V[b][1:] + (-V[b][0],)))
            if V[b] != T[b]:
                t.true('H.differ(%s, %s)' % (tb(T), tb(V)))
