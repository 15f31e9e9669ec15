"""Contracts on /repo/tableaux.py: binomial coefficients and weight counts (C11)."""
from pyvc.spec import Loop


def register(r):
    C = dict(props=['C11'])
    MK = {'m': 'int', 'k': 'int'}
    r.specfn('binom', MK, 'int', '1 if k <= 0 else (0 if m <= 0 else binom(m - 1, k - 1) + binom(m - 1, k))', fuel=1)
    r.specfn('falling', MK, 'int', '1 if k <= 0 else falling(m, k - 1) * (m - (k - 1))', fuel=1)
    r.specfn('facratio', {'i': 'int', 'k': 'int'}, 'int', '1 if i >= k else (i + 1) * facratio(i + 1, k)', fuel=1)
    r.specfn('bpart', {'m': 'int', 'k': 'int', 'i': 'int'}, 'int', 'binom(m, k) * facratio(i, k)', fuel=1)
    r.lemma('absorb', params=MK, dec='m', requires=['m >= 0', 'k >= 1'], ih=['m - 1, k', 'm - 1, k - 1'], uses=['implies(m > 0, k * binom(m, k) == k * binom(m - 1, k - 1) + k * binom(m - 1, k))',
            'implies(m > 0 and k > 1, (m - k + 1) * binom(m, k - 1) == (m - k + 1) * binom(m - 1, k - 2) + (m - k + 1) * binom(m - 1, k - 1))'], ensures=['k * binom(m, k) == (m - k + 1) * binom(m, k - 1)'], **C)
    r.lemma('ratio_last', params={'i': 'int', 'k': 'int'}, dec='k - i', requires=['0 <= i', 'i <= k'], ih=['i + 1, k'], uses=['implies(i < k, facratio(i, k + 1) == (i + 1) * facratio(i + 1, k + 1))', 'implies(i < k, facratio(i + 1, k + 1) == (k + 1) * facratio(i + 1, k))', 'implies(i < k, facratio(i, k) == (i + 1) * facratio(i + 1, k))'],
            ensures=['facratio(i, k + 1) == (k + 1) * facratio(i, k)'], **C)
    r.lemma('falling_is', params=MK, dec='k if k > 0 else 0', requires=['m >= 0'], ih=['m, k - 1'], uses=['implies(k <= 0, falling(m, k) == 1 and binom(m, k) == 1 and facratio(0, k) == 1)', 'implies(k > 0, absorb(m, k))', 'implies(k > 0, ratio_last(0, k - 1))', 'implies(k > 0, falling(m, k) == falling(m, k - 1) * (m - (k - 1)))',
            'implies(k > 0, falling(m, k) == binom(m, k - 1) * facratio(0, k - 1) * (m - (k - 1)))', 'implies(k > 0, binom(m, k) * facratio(0, k) == binom(m, k) * k * facratio(0, k - 1))', 'implies(k > 0, binom(m, k) * k == (m - k + 1) * binom(m, k - 1))'],
            ensures=['falling(m, k) == binom(m, k) * facratio(0, k)'], **C)
    r.lemma('falling_part', params=MK, requires=['m >= 0'], uses=['falling_is(m, k)', 'bpart(m, k, 0) == binom(m, k) * facratio(0, k)'], ensures=['falling(m, k) == bpart(m, k, 0)'], **C)
    r.lemma('part_step', params={'m': 'int', 'k': 'int', 'i': 'int'}, requires=['0 <= i', 'i < k'], uses=['facratio(i, k) == (i + 1) * facratio(i + 1, k)', 'bpart(m, k, i) == binom(m, k) * facratio(i, k)', 'bpart(m, k, i + 1) == binom(m, k) * facratio(i + 1, k)', 'bpart(m, k, i) == (binom(m, k) * facratio(i + 1, k)) * (i + 1)'],
            ensures=['bpart(m, k, i) == bpart(m, k, i + 1) * (i + 1)', 'bpart(m, k, i) // (i + 1) == bpart(m, k, i + 1)'], **C)
    r.lemma('part_end', params={'m': 'int', 'k': 'int', 'i': 'int'}, requires=['i >= k'], uses=['facratio(i, k) == 1'], ensures=['bpart(m, k, i) == binom(m, k)'], **C)
    r.contract('tableaux.nchoosek', params=MK, returns='int', requires=['m >= 0'], uses=['falling_part(m, k)'], ensures=['result == binom(m, k)'],
               loops=[Loop('for i in range(k)', tag='a', inv=['ans == falling(m, _i_a)'], exit=['implies(k < 0, falling(m, k) == 1 and ans == 1)', 'ans == falling(m, k)', 'ans == bpart(m, k, 0)']),
                      Loop('for i in range(k)', tag='b', inv=['ans == bpart(m, k, _i_b)'], hints=['part_step(m, k, i)'], exit=['part_end(m, k, k if k > 0 else 0)'])], **C)
