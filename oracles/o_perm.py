import itertools
from functools import lru_cache
from .base import group

# signed permutations as tuples of fixed length n (one-line), computed on the interval -n..n


def sp(n):
    for p in itertools.permutations(range(1, n + 1)):
        for s in itertools.product((1, -1), repeat=n):
            yield tuple(a * e for a, e in zip(p, s))


def up(n):
    return itertools.permutations(range(1, n + 1))


def at(w, i):
    return w[i - 1] if 1 <= i <= len(w) else -w[-i - 1] if -len(w) <= i <= -1 else i


def tr(w):
    w = tuple(w)
    while w and w[-1] == len(w):
        w = w[:-1]
    return w


def comp(u, v):
    n = max(len(u), len(v))
    return tr(at(u, at(v, i)) for i in range(1, n + 1))


def inv(w):
    d = {}
    for i, a in enumerate(w):
        d[abs(a)] = (i + 1) if a > 0 else -(i + 1)
    return tr(d[i] for i in range(1, len(w) + 1))


def gen(i):
    return (-1,) if i == 0 else tuple(range(1, i)) + (i + 1, i)


def length(w):
    n = len(w)
    return (sum(1 for i in range(1, n + 1) for j in range(i + 1, n + 1) if w[i - 1] > w[j - 1]) +
            sum(1 for i in range(1, n + 1) for j in range(i, n + 1) if w[i - 1] + w[j - 1] < 0))


def rdes(w):
    return {i for i in range(len(w) + 1) if length(comp(w, gen(i))) < length(w)}


def ldes(w):
    return {i for i in range(len(w) + 1) if length(comp(gen(i), w)) < length(w)}


@lru_cache(None)
def redwords(w):
    """Shortest factorizations, by breadth-first search on right multiplication."""
    if w == ():
        return frozenset({()})
    out = set()
    for i in rdes(w):
        out |= {e + (i,) for e in redwords(comp(w, gen(i)))}
    return frozenset(out)


def bfs_words(n, signed):
    """All shortest words of every element, without using lengths or descents."""
    gens = range(0 if signed else 1, n)
    words = {(): {()}}
    level = {(): {()}}
    while level:
        nxt = {}
        for w, es in level.items():
            for i in gens:
                v = comp(w, gen(i))
                if v not in words:
                    nxt.setdefault(v, set()).update(e + (i,) for e in es)
        words.update(nxt)
        level = nxt
    return words


def dem(u, v):
    for i in sorted(redwords(v))[0] if v else ():
        if i not in rdes(u):
            u = comp(u, gen(i))
    return u


def P(w):
    return 'Permutation(*%r)' % (tuple(w),)


def L(expr):
    return '(%s).oneline' % expr


@group('C07', limit=90)
def grouplaws(t):
    small = [w for n in range(4 if not t.deep else 5) for w in sp(n)]
    for w in small:
        t.eq(L(P(w)), tr(w))
        t.eq(L(P(w + (len(w) + 1,))), tr(w))
        t.eq(L(P(w + (len(w) + 1, len(w) + 2))), tr(w))
        t.eq(L('Permutation(%r)' % (list(w),)), tr(w))
        t.eq('(%s).rank' % P(w), len(tr(w)))
        t.eq(L('(%s).inverse()' % P(w)), inv(w))
        t.eq(L('(%s) * (%s).inverse()' % (P(w), P(w))), ())
        t.eq(L('(%s).inverse() * (%s)' % (P(w), P(w))), ())
        t.eq('[(%s)(i) for i in range(-6, 7)]' % P(w), [at(w, i) for i in range(-6, 7)])
        x = ()
        for n in range(0, 5):
            t.eq(L('(%s) ** %d' % (P(w), n)), x)
            t.eq(L('(%s) ** %d' % (P(w), -n)), inv(x))
            x = comp(x, w)
        t.eq('((%s).is_identity(), (%s).is_involution(), (%s).is_unsigned(), (%s).is_even_signed())' % ((P(w),) * 4),
             (tr(w) == (), comp(w, w) == (), all(a > 0 for a in w), sum(a < 0 for a in w) % 2 == 0))
        if all(a > 0 for a in w):
            t.eq('(%s).is_fpf_involution()' % P(w), comp(w, w) == () and all(a != i + 1 for i, a in enumerate(tr(w))))
    pool = small if t.deep else [w for w in small if len(w) < 3] + t.rng.sample([w for w in small if len(w) == 3], 30)
    for u in pool:
        for v in pool:
            t.eq(L('%s * %s' % (P(u), P(v))), comp(u, v))
            t.eq('%s == %s' % (P(u), P(v)), tr(u) == tr(v))
    for n in range(200 if not t.deep else 3000):
        u, v, w = (tuple(a * t.rng.choice((1, 1, -1)) for a in t.rng.sample(range(1, k + 1), k)) for k in (t.rng.randint(0, 7) for _ in range(3)))
        t.eq(L('%s * %s * %s' % (P(u), P(v), P(w))), comp(comp(u, v), w))
        t.eq(L('%s * (%s * %s)' % (P(u), P(v), P(w))), comp(comp(u, v), w))
        t.eq(L('(%s ** %d)' % (P(u), 7)), comp(u, comp(comp(u, comp(u, u)), comp(u, comp(u, u)))))


@group('C07', limit=60)
def conversions(t):
    for n in range(0, 4 if not t.deep else 5):
        t.eq('sorted(w.oneline for w in Permutation.all(%d))' % n, sorted(tr(w) for w in up(n)))
        t.eq('sorted(w.oneline for w in Permutation.all(%d, signed=True))' % n, sorted(tr(w) for w in sp(n)))
        t.eq('sorted(w.oneline for w in Permutation.involutions(%d))' % n, sorted(tr(w) for w in up(n) if comp(w, w) == ()))
        t.eq('sorted(w.oneline for w in Permutation.involutions(%d, signed=True))' % n, sorted(tr(w) for w in sp(n) if comp(w, w) == ()))
    for n in range(0, 7):
        fpf = sorted(tr(w) for w in up(n) if comp(w, w) == () and all(a != i + 1 for i, a in enumerate(w)))
        t.eq('sorted(w.oneline for w in Permutation.involutions(%d, fpf=True))' % n, fpf if n % 2 == 0 else [])
        if n:
            t.eq('sorted(w.oneline for w in Permutation.fpf_involutions(%d))' % n, fpf if n % 2 == 0 else [])
        t.eq('Permutation.longest_element(%d).oneline' % n, tr(range(n, 0, -1)))
        t.eq('Permutation.longest_element(%d, signed=True).oneline' % n, tuple(-i for i in range(1, n + 1)))
    for i in range(0, 7):
        t.eq('Permutation.s_i(%d).oneline' % i, gen(i))
    for i in range(1, 7):
        for j in range(1, 7):
            tt = tuple(j if k == i else i if k == j else k for k in range(1, 8))
            t.eq('Permutation.transposition(%d, %d).oneline' % (i, j), tr(tt))
            t.eq('Permutation.reflection_t(%d, %d).oneline' % (i, j), tr(tt))
            if i <= j:
                ss = tuple(-j if k == i else -i if k == j else k for k in range(1, 8))
                t.eq('Permutation.reflection_s(%d, %d).oneline' % (i, j), tr(ss))
    for n in range(0, 6):
        for w in (up(n) if n < 6 else ()):
            cyc, seen = [], set()
            for i in range(1, n + 1):
                if i not in seen:
                    c, j = [], i
                    while j not in seen:
                        seen.add(j)
                        c.append(j)
                        j = w[j - 1]
                    cyc.append(c)
            m = len(tr(w))
            t.eq('sorted(%s.cycles)' % P(w), sorted(c for c in cyc if max(c) <= m))
            for c in cyc:
                if len(c) > 1:
                    cw = {c[k]: c[(k + 1) % len(c)] for k in range(len(c))}
                    t.eq('Permutation.cycle(*%r).oneline' % (c,), tr(cw.get(i, i) for i in range(1, n + 1)))
    for n in range(200):
        word = tuple(t.rng.randint(0, 4) for _ in range(t.rng.randint(0, 8)))
        w = ()
        for i in word:
            w = comp(w, gen(i))
        t.eq('Permutation.from_word(%r).oneline' % (word,), w)
        t.eq('Permutation.from_word(%r).oneline' % (list(word),), w)
    for w in [w for n in range(4) for w in sp(n)]:
        m = len(tr(w))
        if comp(w, w) == ():
            t.eq('(%s.pair(), %s.neg(), %s.fix())' % (P(w), P(w), P(w)),
                 ([(a, at(w, a)) for a in range(-m, m + 1) if 0 < abs(a) < at(w, a)], [(-a, -a) for a in range(1, m + 1) if at(w, a) == -a], [(a, a) for a in range(1, m + 1) if at(w, a) == a]))


@group('C02', limit=60)
def perm_equality(t):
    ws = [w for n in range(4) for w in sp(n)]
    for w in ws:
        for k in range(3):
            t.true('H.same(%s, %s)' % (P(w), P(tuple(w) + tuple(range(len(w) + 1, len(w) + 1 + k)))))
        t.true('H.same(%s, Permutation.from_word(%s.get_reduced_word()))' % (P(w), P(w)))
        t.true('H.same(%s, %s.inverse().inverse())' % (P(w), P(w)))
        # filling the cached fields must not matter
        t.true('(lambda v: (len(v), v.right_descent_set, v.left_descent_set) and H.same(v, %s))(%s)' % (P(w), P(w)))
    for u in ws:
        for v in t.rng.sample(ws, 12):
            if tr(u) != tr(v):
                t.true('H.differ(%s, %s)' % (P(u), P(v)))


@group('C08', limit=120)
def lengths(t):
    for w in [w for n in range(5 if t.deep else 4) for w in sp(n)] + list(up(4)) + list(up(5)):
        t.eq('len(%s)' % P(w), length(w))
        t.eq('%s.length' % P(w), length(w))
        t.eq('%s.right_descent_set' % P(w), rdes(tr(w)))
        t.eq('%s.left_descent_set' % P(w), ldes(tr(w)))
        t.eq('(lambda w: (w.left_descent_set, w.right_descent_set, len(w), w.left_descent_set, len(w)))(%s)' % P(w), (ldes(tr(w)), rdes(tr(w)), length(w), ldes(tr(w)), length(w)))
        t.eq('(lambda w: Permutation.from_word(w.get_reduced_word()) == w and len(w.get_reduced_word()) == len(w) and w.reduced_word == w.get_reduced_word())(%s)' % P(w), True)
        if all(a > 0 for a in w):
            n = len(tr(w))
            t.eq('tuple(%s.code())' % P(w), tuple(sum(1 for j in range(i + 1, n) if w[j] < w[i]) for i in range(n)))
            t.eq('%s.last_descent()' % P(w), max(rdes(tr(w)), default=None))
            t.eq('%s.rothe_diagram()' % P(w), sorted((i + 1, w[j]) for i in range(n) for j in range(i + 1, n) if w[i] > w[j]))
            mu = tuple(sorted([c for c in (sum(1 for j in range(n) if (j < i and w[j] > w[i])) for i in range(n)) if c], reverse=True))
            t.eq('tuple(sorted(c for c in %s.inverse().code() if c))' % P(w), tuple(sorted(c for c in (sum(1 for j in range(n) if inv(w)[j:j + 1] and inv(w)[i] > inv(w)[j] and j > i) if i < len(inv(w)) else 0 for i in range(n)) if c)))


@group('C08', limit=120)
def reduced_words(t):
    for signed, n in ((True, 2), (True, 3), (False, 4)) + (((False, 5),) if t.deep else ()):
        table = bfs_words(n, signed)
        items = list(table.items())
        for rnd in range(2):
            t.rng.shuffle(items)
            for w, es in items:
                t.eq('sorted(%s.get_reduced_words())' % P(w), sorted(es))
                t.eq('sorted(%s.reduced_words)' % P(w), sorted(es))
                t.eq('%s.get_reduced_word() in %r' % (P(w), es), True)
    # partial enumerations first
    for w in list(up(4)):
        t.eq('(next(%s.get_reduced_words()), len(set(%s.get_reduced_words())))[1]' % (P(w), P(w)), len(redwords(tr(w))))


@group('C08', limit=120)
def demazure(t):
    els = [tr(w) for w in list(sp(2)) + list(up(4))]
    if t.deep:
        els += [tr(w) for w in sp(3)]
    else:
        els += t.rng.sample([tr(w) for w in sp(3)], 20)
    for u in els:
        for v in els:
            t.eq(L('%s %% %s' % (P(u), P(v))), dem(u, v))


@group('C08', limit=120)
def hecke(t):
    from itertools import product
    for n, ell in ((2, 3), (3, 5), (4, 5)):
        table = {}
        for k in range(ell + 1):
            for word in product(range(1, n), repeat=k):
                w = ()
                for i in word:
                    if i not in rdes(w):
                        w = comp(w, gen(i))
                table.setdefault(w, []).append(word)
        ws = [w for w in table if len(w) == n]
        for rnd in range(2):
            for b in ([ell, 2, ell - 1, 0] if rnd else [1, ell]):
                for w in ws:
                    t.eq('sorted(%s.get_hecke_words(%d))' % (P(w), b), sorted(e for e in table[w] if len(e) <= b))
                allw = sorted(e for w in table for e in table[w] if len(e) <= b)
                t.eq('sorted(Permutation.hecke_words(%d, %d))' % (n, b), allw)
        for asc in (1, 2, 3):
            ok = lambda e: all(sum(1 for x, y in zip(e[:m], e[1:m]) if x <= y) < asc for m in range(len(e) + 1))
            for w in ws:
                t.eq('sorted(%s.get_hecke_words(%d, %d))' % (P(w), ell, asc), sorted(e for e in table[w] if ok(e)))


def invol(word, fpf=0, strict=True):
    """Demazure-conjugation product of an involution word."""
    w = tuple(x for i in range(1, fpf, 2) for x in (i + 1, i))
    for i in word:
        if i in rdes(w):
            continue
        s = gen(i)
        a = comp(comp(s, w), s)
        w = comp(w, s) if a == w else a
    return w


@group('C08', limit=120)
def involutions(t):
    for signed, n in ((True, 2), (True, 3), (False, 4), (False, 5)):
        if not t.deep and n == 5:
            continue
        gens = range(0 if signed else 1, n)
        words, level = {(): {()}}, {(): {()}}
        while level:
            nxt = {}
            for w, es in level.items():
                for i in gens:
                    if i in rdes(w):
                        continue
                    s = gen(i)
                    v = comp(comp(s, w), s)
                    v = comp(w, s) if v == w else v
                    assert v not in words
                    nxt.setdefault(v, set()).update(e + (i,) for e in es)
            words.update(nxt)
            level = nxt
        items = list(words.items())
        t.rng.shuffle(items)
        for w, es in items:
            t.eq('sorted(set(%s.get_involution_words()))' % P(w), sorted(es))
            t.eq('sorted(%s.get_involution_words())' % P(w), sorted(es))
            t.eq('%s.involution_length' % P(w), len(next(iter(es))))
            t.eq('%s.get_involution_word() in %r' % (P(w), es), True)
            atoms = set()
            for e in es:
                v = ()
                for i in e:
                    v = comp(v, gen(i))
                atoms.add(v)
            t.eq('sorted(a.oneline for a in %s.get_atoms())' % P(w), sorted(atoms))
            t.eq('%s.get_min_atom().oneline in %r' % (P(w), atoms), True)
            t.eq('Permutation.from_involution_word(%r).oneline' % (min(es),), w)
            for i in gens:
                e = min(es) + (i,)
                if i in rdes(w):
                    t.eq('Permutation.from_involution_word(%r)' % (e,), None)
                else:
                    t.eq('Permutation.from_involution_word(%r).oneline' % (e,), invol(e))
    for n in (2, 4, 6):
        base = invol((), n)
        words, level = {base: {()}}, {base: {()}}
        while level:
            nxt = {}
            for w, es in level.items():
                for i in range(1, n):
                    if i in rdes(w) or w[i - 1] == i + 1:
                        continue
                    v = comp(comp(gen(i), w), gen(i))
                    nxt.setdefault(v, set()).update(e + (i,) for e in es)
            words.update(nxt)
            level = nxt
        for w, es in words.items():
            if len(es) > 60:
                continue
            t.eq('sorted(%s.get_fpf_involution_words())' % P(w), sorted(es))
            t.eq('%s.fpf_involution_length' % P(w), len(next(iter(es))))
            t.eq('%s.get_fpf_involution_word() in %r' % (P(w), es), True)
            atoms = set()
            for e in es:
                v = ()
                for i in e:
                    v = comp(v, gen(i))
                atoms.add(v)
            t.eq('sorted(a.oneline for a in %s.get_fpf_atoms())' % P(w), sorted(atoms))


@lru_cache(None)
def bruhat_down(w):
    """Elements covered by w: w * reflection of length one less."""
    n = len(w)
    out = set()
    for i in range(1, n + 1):
        for j in range(i, n + 1):
            refs = []
            if i < j:
                refs.append(tuple(j if k == i else i if k == j else k for k in range(1, n + 1)))
            refs.append(tuple(-j if k == i else -i if k == j else k for k in range(1, n + 1)))
            for r in refs:
                v = comp(w, r)
                if length(v) == length(w) - 1:
                    out.add(v)
    return frozenset(out)


@group('C08', limit=60)
def bruhat(t):
    for w in [tr(w) for w in list(sp(3)) + list(up(4))]:
        t.eq('sorted(v.oneline for v in %s.bruhat_covers())' % P(w), sorted(bruhat_down(w)))
