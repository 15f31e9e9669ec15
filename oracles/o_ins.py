import itertools
from functools import lru_cache
from .base import group


def tr(w):
    w = list(w)
    while w and w[-1] == len(w):
        w.pop()
    return tuple(w)


def right(w, i):
    """Demazure product of w with the i-th adjacent transposition, on the right."""
    w = list(w) + list(range(len(w) + 1, i + 2))
    if w[i - 1] < w[i]:
        w[i - 1], w[i] = w[i], w[i - 1]
    return tr(w)


def left(i, w):
    w = list(w) + list(range(len(w) + 1, i + 2))
    a, b = w.index(i), w.index(i + 1)
    if a < b:
        w[a], w[b] = w[b], w[a]
    return tr(w)


def prod(word):
    w = ()
    for i in word:
        w = right(w, i)
    return w


def invprod(word, start=()):
    w = tr(start)
    for i in word:
        w = right(left(i, w), i)
    return w


def rows(T):
    out = {}
    for (i, j), v in T.items():
        out.setdefault(i, {})[j] = v
    return out


def increasing(T, shifted):
    for (i, j), v in T.items():
        if (i, j + 1) in T and not v < T[i, j + 1] or (i + 1, j) in T and not v < T[i + 1, j]:
            return False
        if (j > (i if shifted else 1) and (i, j - 1) not in T) or (i > 1 and (i - 1, j) not in T):
            return False
    return True


def readword(T):
    r = rows(T)
    return tuple(r[i][j] for i in sorted(r, reverse=True) for j in sorted(r[i]))


def single(boxes):
    return {b: (v[0] if isinstance(v, tuple) else v) for b, v in boxes.items()}


def check(t, meth, inv, word, record, multi, shifted, product):
    args = '%r, %r, %r' % (word, record, multi)
    ex = 'InsertionAlgorithm.%s(%s)' % (meth, args)
    t.note(ex)
    P, Q = t.ev(ex)
    p, q = single(P.boxes), dict(Q.boxes)
    if set(p) != set(q):
        t.fail(ex, 'recording tableau of the same shape', (p, q))
    if not increasing(p, shifted):
        t.fail(ex, 'an increasing insertion tableau', p)
    if product(readword(p if multi or shifted else {(j, i): v for (i, j), v in p.items()})) != product(word):
        t.fail(ex, 'insertion tableau with the Hecke product of the word', p)
    rec = record or tuple(range(1, len(word) + 1))
    t.eq('InsertionAlgorithm.%s(*%s, %r)' % (inv, ex, multi), (word, rec))
    if sorted(abs(x) for v in q.values() for x in v) != sorted(rec):
        t.fail(ex, 'each recording letter once', q)


def records(rng, word, multi):
    r, out = 1, []
    for i in range(len(word)):
        if i:
            strict = word[i - 1] > word[i] if multi else word[i - 1] <= word[i]
            r += 1 if strict else rng.randint(0, 1)
        out.append(r)
    return tuple(out)


@group('C16', limit=90)
def hecke(t):
    for k in range(0, 6):
        for word in itertools.product(range(1, 4), repeat=k):
            if k == 5 and not t.deep and t.rng.random() > .5:
                continue
            for multi in (True, False):
                check(t, 'hecke', 'inverse_hecke', word, None, multi, False, prod)
                check(t, 'hecke', 'inverse_hecke', word, records(t.rng, word, multi), multi, False, prod)
    for _ in range(200 if not t.deep else 2000):
        word = tuple(t.rng.randint(1, t.rng.randint(2, 8)) for _ in range(t.rng.randint(5, 16)))
        check(t, 'hecke', 'inverse_hecke', word, None, True, False, prod)
        check(t, 'hecke', 'inverse_hecke', word, records(t.rng, word, True), True, False, prod)
        # inserting in two parts, with the recording letters continued
        k = t.rng.randint(0, len(word))
        whole = t.ev('HState.insertion_tableaux(*%r)' % (word,))
        t.eq('HState.insertion_tableaux(*%r, **dict(zip("pq", HState.insertion_tableaux(*%r))))' % (word[k:], word[:k]), whole)
        check(t, 'hecke', 'inverse_hecke', word, records(t.rng, word, False), False, False, prod)


@group('C16', limit=90)
def orthogonal(t):
    for k in range(0, 6):
        for word in itertools.product(range(1, 4), repeat=k):
            if k == 5 and not t.deep and t.rng.random() > .5:
                continue
            for multi in (True, False):
                check(t, 'orthogonal_hecke', 'inverse_orthogonal_hecke', word, None, multi, True, invprod)
                check(t, 'orthogonal_hecke', 'inverse_orthogonal_hecke', word, records(t.rng, word, multi), multi, True, invprod)
    for _ in range(200 if not t.deep else 2000):
        word = tuple(t.rng.randint(1, t.rng.randint(2, 7)) for _ in range(t.rng.randint(5, 14)))
        check(t, 'orthogonal_hecke', 'inverse_orthogonal_hecke', word, None, True, True, invprod)
        check(t, 'orthogonal_hecke', 'inverse_orthogonal_hecke', word, records(t.rng, word, False), False, True, invprod)
        k = t.rng.randint(0, len(word))
        even = tuple(2 * a for a in word)
        whole = t.ev('FState.insertion_tableaux(*%r)' % (even,))
        t.eq('FState.insertion_tableaux(*%r, **dict(zip("pq", FState.insertion_tableaux(*%r))))' % (even[k:], even[:k]), whole)


def full(w, n):
    return tuple(w) + tuple(range(len(w) + 1, n + 1))


@lru_cache(None)
def fpf(word, n=6):
    """Product on the fixed point free involution, or None if the word is not symplectic Hecke."""
    if not word:
        return tuple(x for i in range(1, n, 2) for x in (i + 1, i))
    w, i = fpf(word[:-1], n), word[-1]
    if w is None or w[i - 1] == i + 1:
        return None
    return full(right(left(i, w), i), n)


@group('C16', limit=90)
def symplectic(t):
    for k in range(0, 6):
        for word in itertools.product(range(1, 6), repeat=k):
            if k == 5 and t.rng.random() > (.6 if t.deep else .1):
                continue
            if fpf(word) is None:
                continue
            for multi in (True, False):
                check(t, 'symplectic_hecke', 'inverse_symplectic_hecke', word, None, multi, True, fpf)
                check(t, 'symplectic_hecke', 'inverse_symplectic_hecke', word, records(t.rng, word, multi), multi, True, fpf)
    for _ in range(100 if not t.deep else 1500):
        n = t.rng.choice([6, 8])
        word = ()
        for _ in range(t.rng.randint(4, 14)):
            w = word + (t.rng.randint(1, n - 1),)
            if fpf(w, n) is not None:
                word = w
        for multi in (True, False):
            check(t, 'symplectic_hecke', 'inverse_symplectic_hecke', word, None, multi, True, lambda w: fpf(w, n))
            check(t, 'symplectic_hecke', 'inverse_symplectic_hecke', word, records(t.rng, word, multi), multi, True, lambda w: fpf(w, n))
