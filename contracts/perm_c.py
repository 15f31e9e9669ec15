"""Contracts on /repo/permutations.py: signed permutations in one-line notation (C07, C08, C02)."""
from pyvc.spec import Loop

P = 'permutations.Permutation.'


def register(r):
    d = r.define
    r.model('Permutation', 'permutations.Permutation', {'_oneline': 'tuple[int]', '_rank': 'int'})
    # t is the one-line word of a signed permutation of 1..len(t)
    d('inrange', 't', 'forall("int", lambda i: implies(0 <= i and i < len(t), 1 <= abs(t[i]) and abs(t[i]) <= len(t)))')
    d('onto', 't,m', 'forall("int", lambda j: implies(1 <= j and j <= m, exists("int", lambda i: 0 <= i and i < len(t) and abs(t[i]) == j)))')
    d('sp', 't', 'inrange(t) and onto(t, len(t))')
    r.specfn('pev', {'t': 'tuple[int]', 'i': 'int'}, 'int', 't[i - 1] if 0 < i and i <= len(t) else (-t[-i - 1] if i < 0 and -i <= len(t) else i)')
    d('pinv', 'w', 'sp(w._oneline) and w._rank == len(w._oneline) and (len(w._oneline) == 0 or w._oneline[len(w._oneline) - 1] != len(w._oneline))')
    d('ev', 'w,i', 'pev(w._oneline, i)')
    d('entries', 't', 'forall("int", lambda i: implies(0 <= i and i < len(t), t[i] == pev(t, i + 1)), lambda i: t[i])')
    # i is a right (left) descent of w
    d('rdes', 'w,i', '(i == 0 and ev(w, 1) < 0) or (i >= 1 and ev(w, i) > ev(w, i + 1))')
    d('ldes', 'w,S', 'forall("int", lambda i: implies(i in S, i >= 0)) and forall("int", lambda a: implies(ev(w, a) == 1, iff(0 in S, a < 0))) and '
      'forall("int,int", lambda a, b: implies(ev(w, a) >= 1 and ev(w, b) == ev(w, a) + 1, iff(ev(w, a) in S, a > b)))')
    r.memoattr('Permutation', '_rdes', 'set[int]', 'lambda self, v: forall("int", lambda i: iff(i in v, rdes(self, i)))')
    r.memoattr('Permutation', '_ldes', 'set[int]', 'lambda self, v: ldes(self, v)')
    r.memoattr('Permutation', '_len', 'int', 'lambda self, v: v == plen(self._oneline)')
    r.specfn('plen', {'t': 'tuple[int]'}, 'int', None)
    # pigeonhole: a word of length at most m that uses every value 1..m uses each exactly once
    d('absdist', 't', 'forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(t), abs(t[a]) != abs(t[b])))')
    r.specfn('without_at', {'t': 'tuple[int]', 'p': 'int'}, 'tuple[int]', 't[:p] + t[p + 1:]')
    d('dropped', 't,u,p', '0 <= p and p < len(t) and len(u) == len(t) - 1 and forall("int", lambda i: implies(0 <= i and i < len(t), implies(i < p, u[i] == t[i]) and implies(i > p, u[i - 1] == t[i])), lambda i: t[i]) and '
      'forall("int", lambda i: implies(0 <= i and i < len(u), u[i] == (t[i] if i < p else t[i + 1])), lambda i: u[i])')
    r.lemma('pigeon_down', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'p': 'int', 'm': 'int'}, requires=['onto(t, m)', 'dropped(t, u, p)', 'abs(t[p]) == m'],
            ensures=['onto(u, m - 1)'], props=['C07'])
    r.lemma('pigeon_up', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'p': 'int', 'm': 'int'}, requires=['dropped(t, u, p)', 'abs(t[p]) == m', 'm >= 1', 'len(u) == m - 1', 'inrange(u)', 'absdist(u)'],
            ensures=['len(t) == m', 'inrange(t)', 'absdist(t)'], props=['C07'])
    r.lemma('pigeon', params={'t': 'tuple[int]', 'm': 'int'}, dec='m', requires=['m >= 0', 'onto(t, m)', 'len(t) <= m'],
            ensures=['len(t) == m', 'inrange(t)', 'absdist(t)'],
            uses=['implies(m > 0, obtain("int", lambda p: 0 <= p and p < len(t) and abs(t[p]) == m))', 'm == 0 or dropped(t, without_at(t, p), p)', 'pigeon_down(t, without_at(t, p), p, m)',
                  'IH(without_at(t, p), m - 1)', 'pigeon_up(t, without_at(t, p), p, m)'], props=['C07'])
    C = dict(props=['C07'])
    C8 = dict(props=['C08'])
    W = 'Permutation'
    r.lemma('ev_odd', params={'w': W, 'i': 'int'}, ensures=['ev(w, -i) == -ev(w, i)'], **C)
    r.lemma('ev_range', params={'w': W, 'm': 'int', 'i': 'int'}, requires=['pinv(w)', 'm >= len(w._oneline)', '1 <= abs(i)', 'abs(i) <= m'], ensures=['1 <= abs(ev(w, i))', 'abs(ev(w, i)) <= m'], **C)
    r.lemma('ev_onto', params={'w': W, 'm': 'int', 'j': 'int'}, requires=['pinv(w)', 'm >= len(w._oneline)', '1 <= j', 'j <= m'],
            ensures=['exists("int", lambda i: 1 <= i and i <= m and abs(ev(w, i)) == j)'], uses=['entries(w._oneline)', 'touch(ev(w, j))'], **C)
    r.lemma('mul_onto', params={'u': W, 'v': W, 't': 'tuple[int]', 'j': 'int'}, requires=['pinv(u)', 'pinv(v)', 'len(t) == max(len(u._oneline), len(v._oneline))',
            'forall("int", lambda k: implies(0 <= k and k < len(t), t[k] == ev(u, ev(v, k + 1))))', '1 <= j', 'j <= len(t)'],
            ensures=['exists("int", lambda i: 0 <= i and i < len(t) and abs(t[i]) == j)'],
            uses=['ev_onto(u, len(t), j)', 'obtain("int", lambda a: 1 <= a and a <= len(t) and abs(ev(u, a)) == j)', 'ev_onto(v, len(t), a)',
                  'obtain("int", lambda b: 1 <= b and b <= len(t) and abs(ev(v, b)) == a)', 'ev_odd(u, a)', 'touch(t[b - 1])'], **C)
    r.lemma('mul_sp', params={'u': W, 'v': W, 't': 'tuple[int]'}, requires=['pinv(u)', 'pinv(v)', 'len(t) == max(len(u._oneline), len(v._oneline))',
            'forall("int", lambda k: implies(0 <= k and k < len(t), t[k] == ev(u, ev(v, k + 1))))'], ensures=['sp(t)'],
            uses=['forall("int", lambda j: mul_onto(u, v, t, j))', 'forall("int", lambda k: ev_range(v, len(t), k))', 'forall("int", lambda k: ev_range(u, len(t), k))'], **C)
    trim = [Loop('while oneline and oneline[-1] == len(oneline)', tag='w', dec='len(oneline)',
                 inv=['len(oneline) <= len(old(oneline))', 'oneline == old(oneline)[:len(oneline)]', 'forall("int", lambda i: implies(len(oneline) <= i and i < len(old(oneline)), old(oneline)[i] == i + 1))', 'iff(sp(oneline), sp(old(oneline)))'],
                 hints=['dropped(oneline0, oneline, len(oneline))', 'pigeon_down(oneline0, oneline, len(oneline), len(oneline0))', 'pigeon(oneline, len(oneline))', 'pigeon_up(oneline0, oneline, len(oneline), len(oneline0))'])]
    r.contract(P + '__init__', params={'oneline': 'tuple[int]'}, returns='Permutation', raises='not sp(oneline)',
               ensures=['pinv(result)', 'forall("int", lambda i: ev(result, i) == pev(oneline, i))'], loops=trim, **C)
    r.contract(P + '__call__', params={'self': 'Permutation', 'i': 'int'}, returns='int', requires=['pinv(self)'], macro='ev(self, i)', **C)
    r.contract(P + 'identity', params={}, returns='Permutation', ensures=['pinv(result)', 'forall("int", lambda i: ev(result, i) == i)'], **C)
    r.contract(P + '__eq__', params={'self': 'Permutation', 'other': 'Permutation'}, returns='bool', requires=['pinv(self)', 'pinv(other)'],
               ensures=['iff(result, forall("int", lambda i: ev(self, i) == ev(other, i)))', 'iff(result, self == other)'],
               prove=['entries(self._oneline)', 'entries(other._oneline)', 'implies(len(self._oneline) < len(other._oneline), ev(self, len(other._oneline)) != ev(other, len(other._oneline)))',
                      'implies(len(self._oneline) > len(other._oneline), ev(self, len(self._oneline)) != ev(other, len(self._oneline)))'], props=['C07', 'C02'])
    r.contract(P + '__mul__', params={'self': 'Permutation', 'other': 'Permutation'}, returns='Permutation', requires=['pinv(self)', 'pinv(other)'],
               ensures=['pinv(result)', 'forall("int", lambda i: ev(result, i) == ev(self, ev(other, i)))'],
               calls={'__init__': ['mul_sp(self, other, arg_oneline)']}, prove=['forall("int", lambda k: ev_range(other, max(self._rank, other._rank), k), lambda k: ev(other, k))',
               'forall("int", lambda k: ev_odd(self, k), lambda k: ev(self, k))'], **C)
    r.contract(P + 's_i', params={'i': 'int'}, returns='Permutation', raises='i < 0', ensures=['pinv(result)',
               'forall("int", lambda j: ev(result, j) == ((-j if abs(j) == 1 else j) if i == 0 else (j + 1 if j == i else (j - 1 if j == i + 1 else (j - 1 if j == -i else (j + 1 if j == -i - 1 else j))))))'], **C)
    r.contract(P + 'right_descent_set', params={'self': 'Permutation'}, returns='set[int]', requires=['pinv(self)'], fresh=False, pure=True,
               ensures=['forall("int", lambda i: iff(i in result, rdes(self, i)))'],
               loops=[Loop('for i in range(1, self.rank)', tag='i', inv=['not isnone(memo_rdes)', 'forall("int", lambda j: iff(j in the(memo_rdes), j < _n_i and rdes(self, j)))'])], props=['C08', 'C17'])
    r.lemma('ev_inj', params={'w': W, 'i': 'int', 'j': 'int'}, requires=['pinv(w)', 'abs(ev(w, i)) == abs(ev(w, j))'], ensures=['abs(i) == abs(j)'],
            uses=['pigeon(w._oneline, len(w._oneline))', 'touch(ev(w, i), ev(w, j))'], **C)
    r.lemma('ev_back', params={'w': W, 'j': 'int'}, requires=['pinv(w)', 'j >= 1'], ensures=['exists("int", lambda i: i >= 1 and abs(ev(w, i)) == j)', 'exists("int", lambda i: ev(w, i) == j)'],
            uses=['ev_onto(w, max(j, len(w._oneline)), j)', 'obtain("int", lambda a: 1 <= a and abs(ev(w, a)) == j)', 'ev_odd(w, a)', 'touch(ev(w, -a))'], **C)
    r.lemma('ev_all', params={'w': W, 'j': 'int'}, requires=['pinv(w)'], ensures=['exists("int", lambda i: ev(w, i) == j)'],
            uses=['ev_back(w, abs(j))', 'implies(j != 0, obtain("int", lambda a: ev(w, a) == abs(j)))', 'ev_odd(w, a)', 'touch(ev(w, -a), ev(w, 0))'], **C)
    r.lemma('inv_right', params={'w': W, 'v': W, 'j': 'int'}, requires=['pinv(w)', 'forall("int", lambda i: ev(v, ev(w, i)) == i, lambda i: ev(w, i))'], ensures=['ev(w, ev(v, j)) == j'],
            uses=['ev_all(w, j)'], **C)
    d('inverse_word', 'w,t,n', 'len(t) == len(w._oneline) and forall("int", lambda k: implies(1 <= k and k < n, t[abs(ev(w, k)) - 1] == (k if ev(w, k) > 0 else -k)), lambda k: ev(w, k))')
    r.lemma('inverse_entry', params={'w': W, 't': 'tuple[int]', 'j': 'int'}, requires=['pinv(w)', 'inverse_word(w, t, len(w._oneline) + 1)', '1 <= j', 'j <= len(t)'],
            ensures=['exists("int", lambda i: 1 <= i and i <= len(t) and abs(ev(w, i)) == j and abs(t[j - 1]) == i and (ev(w, i) > 0) == (t[j - 1] > 0))', 'ev(w, t[j - 1]) == j', 'abs(t[j - 1]) <= len(t)', 'abs(t[j - 1]) >= 1'],
            uses=['ev_onto(w, len(t), j)', 'obtain("int", lambda a: 1 <= a and a <= len(t) and abs(ev(w, a)) == j)', 'touch(ev(w, -a))', 'ev_odd(w, a)'], **C)
    r.lemma('inverse_onto', params={'w': W, 't': 'tuple[int]', 'j': 'int'}, requires=['pinv(w)', 'inverse_word(w, t, len(w._oneline) + 1)', '1 <= j', 'j <= len(t)'],
            ensures=['exists("int", lambda i: 0 <= i and i < len(t) and abs(t[i]) == j)'], uses=['ev_range(w, len(t), j)', 'touch(t[abs(ev(w, j)) - 1])'], **C)
    r.lemma('inverse_sp', params={'w': W, 't': 'tuple[int]'}, requires=['pinv(w)', 'inverse_word(w, t, len(w._oneline) + 1)'], ensures=['sp(t)'],
            uses=['forall("int", lambda j: inverse_onto(w, t, j))', 'forall("int", lambda i: inverse_entry(w, t, i + 1), lambda i: t[i])', 'inrange(t)'], **C)
    r.contract(P + 'inverse', params={'self': W}, returns=W, requires=['pinv(self)'],
               ensures=['pinv(result)', 'forall("int", lambda i: ev(result, ev(self, i)) == i, lambda i: ev(self, i))', 'forall("int", lambda i: ev(self, ev(result, i)) == i, lambda i: ev(result, i))'],
               loops=[Loop('for i in range(1, self.rank + 1)', tag='i', inv=['inverse_word(self, newline, _n_i)'],
                           hints=['ev_range(self, len(newline), i)', 'forall("int", lambda k: ev_inj(self, i, k), lambda k: ev(self, k))'])],
               calls={'__init__': ['inverse_sp(self, arg_oneline)']},
               prove=['forall("int", lambda i: ev(result, ev(self, i)) == i, lambda i: ev(self, i))', 'forall("int", lambda i: inv_right(self, result, i), lambda i: ev(result, i))'], **C)
    r.contract(P + 'left_descent_set', params={'self': W}, returns='set[int]', requires=['pinv(self)'], fresh=False, pure=True, ensures=['ldes(self, result)', 'forall("int", lambda i: implies(i in result, i >= 0))'], props=['C08', 'C17'])
    r.specfn('ppw', {'t': 'tuple[int]', 'n': 'int', 'i': 'int'}, 'int', 'i if n <= 0 else pev(t, ppw(t, n - 1, i))')
    r.lemma('ppw_add', params={'t': 'tuple[int]', 'p': 'int', 'q': 'int', 'i': 'int'}, requires=['p >= 0', 'q >= 0'], dec='p', ensures=['ppw(t, p + q, i) == ppw(t, p, ppw(t, q, i))'], ih=['t, p - 1, q, i'], **C)
    r.lemma('ppw_inv', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'n': 'int', 'i': 'int'}, requires=['n >= 0', 'forall("int", lambda j: pev(t, pev(u, j)) == j, lambda j: pev(u, j))'], dec='n',
            ensures=['ppw(t, n, ppw(u, n, i)) == i'], uses=['ppw_add(t, n - 1, 1, ppw(u, n, i))', 'IH(t, u, n - 1, i)', 'touch(ppw(t, 1, ppw(u, n, i)), ppw(t, 0, ppw(u, n, i)))'], **C)
    r.contract(P + '__pow__', params={'self': W, 'n': 'int'}, returns=W, requires=['pinv(self)'], dec='2 * n if n >= 0 else 1 - 2 * n',
               ensures=['pinv(result)', 'implies(n >= 0, forall("int", lambda i: ev(result, i) == ppw(self._oneline, n, i)))',
                        'implies(n < 0, forall("int", lambda i: ppw(self._oneline, -n, ev(result, i)) == i))'],
               prove=['implies(n >= 0, forall("int", lambda i: ppw_add(self._oneline, n // 2, n - n // 2, i), lambda i: ev(result, i)))',
                      'forall("tuple[int],int", lambda u, i: ppw_inv(self._oneline, u, -n, i), lambda u, i: ppw(u, -n, i))'], **C)
    # ---- reduced words.  sgen(i, x): the generator s_i applied to x; wordev: the product of the first n letters
    d('sgen', 'i,j', '((-j if abs(j) == 1 else j) if i == 0 else (j + 1 if j == i else (j - 1 if j == i + 1 else (j - 1 if j == -i else (j + 1 if j == -i - 1 else j)))))')
    r.specfn('wordev', {'t': 'tuple[int]', 'n': 'int', 'x': 'int'}, 'int', 'x if n <= 0 else wordev(t, n - 1, sgen(t[n - 1], x))')
    d('nonnegative', 't', 'forall("int", lambda k: implies(0 <= k and k < len(t), t[k] >= 0))')
    # the k-th letter is a descent of the product of the first k letters: no letter is wasted
    d('rstep', 't,k', '(t[k - 1] == 0 and wordev(t, k, 1) < 0) or (t[k - 1] >= 1 and wordev(t, k, t[k - 1]) > wordev(t, k, t[k - 1] + 1))')
    d('reduced', 't', 'nonnegative(t) and forall("int", lambda k: implies(1 <= k and k <= len(t), rst(t, k)))')
    d('prod_is', 't,w', 'forall("int", lambda x: wordev(t, len(t), x) == ev(w, x))')
    r.lemma('wordev_prefix', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'n': 'int', 'x': 'int'}, requires=['n <= len(t)', 'n <= len(u)', 'forall("int", lambda k: implies(0 <= k and k < n, t[k] == u[k]))'], dec='n if n >= 0 else 0',
            ensures=['wordev(t, n, x) == wordev(u, n, x)'], ih=['t, u, n - 1, sgen(t[n - 1], x)'], props=['C08'])
    r.contract(P + 'from_word', params={'word': 'tuple[int]'}, returns=W, requires=['nonnegative(word)'],
               ensures=['pinv(result)', 'prod_is(word, result)'],
               loops=[Loop('for i in word', tag='i', inv=['pinv(ans)', 'forall("int", lambda x: wordev(word, _i_i, x) == ev(ans, x))'])], props=['C07', 'C08'])
    # termination of descent recursions: within one rank the weighted sum of the entries grows
    r.specfn('wsum', {'t': 'tuple[int]', 'n': 'int'}, 'int', '0 if n <= 0 else wsum(t, n - 1) + n * t[n - 1]')
    r.lemma('wsum_bound', params={'t': 'tuple[int]', 'n': 'int', 'm': 'int'}, requires=['0 <= n', 'n <= len(t)', 'n <= m', 'forall("int", lambda i: implies(0 <= i and i < len(t), abs(t[i]) <= m))'], dec='n',
            ensures=['wsum(t, n) <= n * (m * m)'], uses=['IH(t, n - 1, m)', 'n == 0 or n * t[n - 1] <= n * m', 'n == 0 or n * m <= m * m'], props=['C08'])
    r.lemma('nl_dist', params={'n': 'int', 'x': 'int', 'a': 'int', 'y': 'int'}, ensures=['implies(y == x + a, n * y == n * x + n * a)'], props=['C08'])
    r.lemma('nl_sub', params={'n': 'int', 'p': 'int', 'a': 'int'}, ensures=['implies(n == p + 1, n * a == (p + 1) * a)'], props=['C08'])
    r.lemma('wsum_update', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'n': 'int', 'p': 'int', 'q': 'int', 'a': 'int', 'b': 'int'}, dec='n',
            uses=['IH(t, u, n - 1, p, q, a, b)', 'n == 0 or n - 1 != p or u[n - 1] == t[n - 1] + a', 'n == 0 or n - 1 != q or u[n - 1] == t[n - 1] + b', 'n == 0 or n - 1 == p or n - 1 == q or u[n - 1] == t[n - 1]',
                  'nl_dist(n, t[n - 1], a, u[n - 1])', 'nl_dist(n, t[n - 1], b, u[n - 1])', 'nl_sub(n, p, a)', 'nl_sub(n, q, b)'],
            requires=['0 <= n', 'n <= len(t)', 'n <= len(u)', 'p != q', 'forall("int", lambda k: implies(0 <= k and k < n, u[k] == (t[k] + a if k == p else (t[k] + b if k == q else t[k]))))'],
            ensures=['wsum(u, n) == wsum(t, n) + ((p + 1) * a if 0 <= p and p < n else 0) + ((q + 1) * b if 0 <= q and q < n else 0)'], props=['C08'])
    d('height', 'w', 'len(w._oneline) * (len(w._oneline) * len(w._oneline)) - wsum(w._oneline, len(w._oneline))')
    d('lower', 'v,w', 'len(v._oneline) < len(w._oneline) or (len(v._oneline) == len(w._oneline) and height(v) < height(w))')
    r.lemma('height_nonneg', params={'w': W}, requires=['pinv(w)'], ensures=['height(w) >= 0'], uses=['wsum_bound(w._oneline, len(w._oneline), len(w._oneline))'], props=['C08'])
    r.lemma('descent_lowers', params={'w': W, 'v': W, 'i': 'int'}, requires=['pinv(w)', 'pinv(v)', 'rdes(w, i)', 'forall("int", lambda x: ev(v, x) == ev(w, sgen(i, x)))'], ensures=['lower(v, w)'],
            uses=['entries(w._oneline)', 'entries(v._oneline)', 'i < len(w._oneline)', 'touch(ev(v, len(v._oneline)))', 'len(v._oneline) <= len(w._oneline)',
                  'wsum_update(w._oneline, v._oneline, len(w._oneline), i - 1, i, w._oneline[i] - w._oneline[i - 1], w._oneline[i - 1] - w._oneline[i])',
                  'wsum_update(w._oneline, v._oneline, len(w._oneline), 0, -1, -2 * w._oneline[0], 0)'], props=['C08'])
    # ---- left descents
    d('pvals', 'w,v,n,p,q,a,b', 'forall("int", lambda k: implies(0 <= k and k < n, v._oneline[k] == (w._oneline[k] + a if k == p else (w._oneline[k] + b if k == q else w._oneline[k]))))')
    for nm, req, p_, q_, a_, b_, extra in [
            ('zero', ['ev(w, a) == 1', 'a < 0', 'forall("int", lambda x: ev(v, x) == sgen(0, ev(w, x)), lambda x: ev(v, x))'], '-a - 1', '-1', '2', '0', []),
            ('pos', ['i > 0', 'ev(w, a) == i', 'ev(w, b) == i + 1', 'a > b', 'forall("int", lambda x: ev(v, x) == sgen(i, ev(w, x)), lambda x: ev(v, x))'], 'abs(a) - 1', 'abs(b) - 1', '(1 if a > 0 else -1)', '(-1 if b > 0 else 1)',
             ['ev_odd(w, b)', 'forall("int", lambda x: ev_inj(w, b, x), lambda x: ev(w, x))', 'abs(a) != abs(b)'])]:
        r.lemma('left_lowers_' + nm, params={'w': W, 'v': W, 'i': 'int', 'a': 'int', 'b': 'int'},
                requires=['pinv(w)', 'pinv(v)'] + req, ensures=['lower(v, w)'],
                uses=['entries(w._oneline)', 'entries(v._oneline)', 'ev_odd(w, a)', 'touch(ev(v, len(v._oneline)))', 'touch(ev(v, len(w._oneline)))',
                      'forall("int", lambda x: ev_inj(w, a, x), lambda x: ev(w, x))'] + extra + [
                      'len(v._oneline) <= len(w._oneline)', 'len(v._oneline) < len(w._oneline) or pvals(w, v, len(w._oneline), %s, %s, %s, %s)' % (p_, q_, a_, b_),
                      'wsum_update(w._oneline, v._oneline, len(w._oneline), %s, %s, %s, %s)' % (p_, q_, a_, b_)], props=['C08'])
    d('letters_cons', 't,u,i', 'len(u) == len(t) + 1 and u[0] == i and forall("int", lambda k: implies(0 <= k and k < len(t), u[k + 1] == t[k]), lambda k: t[k])')
    r.lemma('wordev_cons', params={'t': 'tuple[int]', 'u': 'tuple[int]', 'i': 'int', 'n': 'int', 'x': 'int'}, dec='n', requires=['0 <= n', 'n <= len(t)', 'letters_cons(t, u, i)'],
            ensures=['wordev(u, n + 1, x) == sgen(i, wordev(t, n, x))'], uses=['n == 0 or u[n] == t[n - 1]', 'IH(t, u, i, n - 1, sgen(t[n - 1], x))', 'touch(wordev(u, 1, x), wordev(u, 0, sgen(i, x)))'], props=['C08'])
    r.lemma('wordev_snoc', params={'t': 'tuple[int]', 'i': 'int', 'x': 'int'}, ensures=['wordev(t + (i,), len(t) + 1, x) == wordev(t, len(t), sgen(i, x))'],
            uses=['wordev_prefix(t, t + (i,), len(t), sgen(i, x))', 'touch(wordev(t + (i,), len(t) + 1, x))'], props=['C08'])
    # no descent on the left, or on the right: the identity
    r.lemma('no_rdes', params={'w': W, 'i': 'int'}, requires=['pinv(w)', 'forall("int", lambda j: not rdes(w, j))', 'i >= 1'], dec='i', ensures=['ev(w, i) >= i'],
            uses=['IH(w, i - 1)', 'touch(rdes(w, i - 1))', 'rdes(w, 0) == (ev(w, 1) < 0)', 'ev_range(w, max(len(w._oneline), i), i)', 'ev_inj(w, i, i - 1)', 'i == 1 or ev(w, i - 1) <= ev(w, i)'], props=['C08'])
    r.lemma('no_rdes_id', params={'w': W}, requires=['pinv(w)', 'forall("int", lambda j: not rdes(w, j))'], ensures=['len(w._oneline) == 0', 'forall("int", lambda i: ev(w, i) == i)'],
            uses=['no_rdes(w, len(w._oneline))', 'ev_range(w, len(w._oneline), len(w._oneline))', 'entries(w._oneline)'], props=['C08'])
    d('no_ldes_', 'w', 'forall("int", lambda a: implies(ev(w, a) == 1, a > 0)) and forall("int,int", lambda a, b: implies(ev(w, a) >= 1 and ev(w, b) == ev(w, a) + 1, a < b))')
    r.lemma('no_ldes', params={'w': W, 'j': 'int', 'a': 'int'}, requires=['pinv(w)', 'no_ldes_(w)', 'j >= 1', 'ev(w, a) == j'], dec='j', ensures=['a >= j'],
            uses=['ev_all(w, j - 1)', 'obtain("int", lambda b: ev(w, b) == j - 1)', 'IH(w, j - 1, b)'], props=['C08'])
    r.lemma('no_ldes_id', params={'w': W}, requires=['pinv(w)', 'no_ldes_(w)'], ensures=['len(w._oneline) == 0', 'forall("int", lambda i: ev(w, i) == i)'],
            uses=['ev_all(w, len(w._oneline))', 'obtain("int", lambda b: ev(w, b) == len(w._oneline))', 'no_ldes(w, len(w._oneline), b)', 'ev_odd(w, b)', 'entries(w._oneline)'], props=['C08'])
    r.lemma('ldes_step', params={'w': W, 'v': W, 'S': 'set[int]', 'i': 'int'}, requires=['pinv(w)', 'pinv(v)', 'ldes(w, S)', 'i in S', 'forall("int", lambda x: ev(v, x) == sgen(i, ev(w, x)), lambda x: ev(v, x))'],
            ensures=['lower(v, w)'], uses=['ev_all(w, max(i, 1))', 'obtain("int", lambda a: ev(w, a) == max(i, 1))', 'ev_all(w, i + 1)', 'obtain("int", lambda b: ev(w, b) == i + 1)',
                                           'left_lowers_zero(w, v, 0, a, b)', 'left_lowers_pos(w, v, i, a, b)', 'ev_inj(w, a, b)', 'ev_odd(w, 0)'], props=['C08'])
    r.contract(P + 'get_reduced_word', params={'self': W}, uses=['height_nonneg(self)'], returns='tuple[int]', requires=['pinv(self)'], dec='(len(self._oneline), height(self))',
               ensures=['nonnegative(result)', 'prod_is(result, self)'],
               calls={'get_reduced_word': ['ldes_step(self, arg_self, self.left_descent_set, i)', 'height_nonneg(arg_self)']},
               prove=['forall("tuple[int],tuple[int],int,int", lambda t, u, j, x: wordev_cons(t, u, j, len(t), x))', 'implies(len(result) == 0, no_ldes_id(self))'], props=['C08'])
    # ---- the set of all reduced words, memoized in SIGNED_REDUCED_WORDS
    r.specfn('redword', {'t': 'tuple[int]', 'o': 'tuple[int]'}, 'bool', 'reduced(t) and forall("int", lambda x: wordev(t, len(t), x) == pev(o, x))')
    r.gdict('permutations.SIGNED_REDUCED_WORDS', 'dict[tuple[int],set[tuple[int]]]', 'lambda k, v: forall("tuple[int]", lambda t: iff(t in v, redword(t, k)))')
    r.specfn('rst', {'t': 'tuple[int]', 'k': 'int'}, 'bool', 'rstep(t, k)')
    r.lemma('rstep_prefix', params={'e': 'tuple[int]', 't': 'tuple[int]', 'k': 'int'}, requires=['1 <= k', 'k <= len(e)', 'k <= len(t)', 'forall("int", lambda j: implies(0 <= j and j < k, t[j] == e[j]))'],
            ensures=['rst(t, k) == rst(e, k)'], uses=['wordev_prefix(e, t, k, 1)', 'wordev_prefix(e, t, k, e[k - 1])', 'wordev_prefix(e, t, k, e[k - 1] + 1)'], props=['C08'])
    r.lemma('red_snoc', params={'t': 'tuple[int]', 'e': 'tuple[int]', 'i': 'int', 'w': W}, requires=['i >= 0', 't == e + (i,)', 'forall("int", lambda x: wordev(t, len(t), x) == ev(w, x))'],
            ensures=['iff(reduced(t), reduced(e) and rdes(w, i))'],
            uses=['forall("int", lambda k: rstep_prefix(e, t, k), lambda k: rst(t, k))', 'forall("int", lambda k: rstep_prefix(e, t, k), lambda k: rst(e, k))', 'rst(t, len(t)) == rdes(w, i)',
                  'iff(nonnegative(t), nonnegative(e))', 'reduced(t) or not(reduced(e) and rdes(w, i))', 'implies(reduced(t), reduced(e))', 'implies(reduced(t), rdes(w, i))'], props=['C08'])
    r.specfn('rwof', {'t': 'tuple[int]', 'w': W}, 'bool', 'reduced(t) and prod_is(t, w)')
    # v = w s_i
    r.specfn('rmul', {'v': W, 'w': W, 'i': 'int'}, 'bool', 'pinv(w) and pinv(v) and i >= 0 and forall("int", lambda x: ev(v, x) == ev(w, sgen(i, x)), lambda x: ev(v, x))')
    r.lemma('red_split_e', params={'t': 'tuple[int]', 'e': 'tuple[int]', 'w': W, 'v': W, 'i': 'int'}, requires=['rmul(v, w, i)', 't == e + (i,)'],
            ensures=['iff(rwof(t, w), rdes(w, i) and rwof(e, v))'],
            uses=['forall("int", lambda x: wordev_snoc(e, i, x), lambda x: wordev(t, len(t), x))', 'forall("int", lambda x: wordev_snoc(e, i, sgen(i, x)), lambda x: wordev(e, len(e), x))',
                  'forall("int", lambda x: sgen(i, sgen(i, x)) == x)', 'iff(prod_is(t, w), prod_is(e, v))', 'implies(prod_is(t, w), red_snoc(t, e, i, w))'], props=['C08'])
    r.lemma('red_split', params={'t': 'tuple[int]', 'w': W, 'v': W, 'i': 'int'}, requires=['rmul(v, w, i)', 'len(t) > 0', 't[len(t) - 1] == i'],
            ensures=['iff(rwof(t, w), rdes(w, i) and rwof(t[:len(t) - 1], v))'], uses=['t == t[:len(t) - 1] + (i,)', 'red_split_e(t, t[:len(t) - 1], w, v, i)'], props=['C08'])
    r.lemma('red_cons', params={'e': 'tuple[int]', 'w': W, 'v': W, 'i': 'int'}, requires=['rmul(v, w, i)', 'rdes(w, i)', 'rwof(e, v)'], ensures=['rwof(e + (i,), w)'],
            uses=['(e + (i,))[:len(e)] == e', 'red_split(e + (i,), w, v, i)'], props=['C08'])
    r.lemma('rwof_last', params={'t': 'tuple[int]', 'w': W}, requires=['rwof(t, w)', 'len(t) > 0'], ensures=['rdes(w, t[len(t) - 1])', 't[len(t) - 1] >= 0'], uses=['touch(rst(t, len(t)))'], props=['C08'])
    r.lemma('rwof_empty', params={'t': 'tuple[int]', 'w': W}, requires=['pinv(w)', 'len(t) == 0', 'rwof(t, w)'], ensures=['len(w._oneline) == 0', 'w._oneline == ()'],
            uses=['implies(len(w._oneline) > 0, wordev(t, 0, len(w._oneline)) == len(w._oneline))', 'entries(w._oneline)'], props=['C08'])
    r.lemma('redword_empty', params={'t': 'tuple[int]', 'k': 'tuple[int]'}, requires=['len(k) == 0', 'redword(t, k)'], ensures=['len(t) == 0', 't == ()'], uses=['touch(rst(t, len(t)))', 'touch(wordev(t, len(t), 1))'], props=['C08'])
    r.lemma('empty_redword', params={'t': 'tuple[int]', 'k': 'tuple[int]'}, requires=['len(k) == 0', 'len(t) == 0'], ensures=['redword(t, k)'], props=['C08'])
    r.contract(P + 'get_reduced_words', params={'self': W}, requires=['pinv(self)'], dec='(len(self._oneline), height(self))', ytype='tuple[int]', yields='lambda y: rwof(y, self)', uses=['height_nonneg(self)', 'forall("tuple[int],tuple[int]", lambda t, k: redword_empty(t, k) and empty_redword(t, k), lambda t, k: redword(t, k))'],
               loops=[Loop('for i in w.right_descent_set', tag='d', types={'words': 'set[tuple[int]]'},
                           inv=['forall("tuple[int]", lambda t: iff(t in _Y, rwof(t, self) and len(t) > 0 and t[len(t) - 1] in _vis_d))', 'forall("tuple[int]", lambda t: iff(t in words, t in _Y))'], exit=['forall("tuple[int]", lambda t: rwof_last(t, self), lambda t: rwof(t, self))', 'forall("tuple[int]", lambda t: rwof_empty(t, self), lambda t: rwof(t, self))', 'forall("tuple[int]", lambda t: iff(rwof(t, self), redword(t, self._oneline)), lambda t: redword(t, self._oneline))']),
                      Loop('for e in (w * s).get_reduced_words()', tag='e', types={'words': 'set[tuple[int]]'},
                           inv=['forall("tuple[int]", lambda t: iff(t in _Y, rwof(t, self) and len(t) > 0 and (t[len(t) - 1] in _vis_d or t[len(t) - 1] == i and t[:len(t) - 1] in _vis_e)))', 'forall("tuple[int]", lambda t: iff(t in words, t in _Y))'],
                           hints=['rwof(e + (i,), w)', '(e + (i,))[:len(e)] == e', 'forall("tuple[int]", lambda t: iff(t == e + (i,), len(t) > 0 and t[len(t) - 1] == i and t[:len(t) - 1] == e))']),
                      Loop('for word in SIGNED_REDUCED_WORDS[oneline]', tag='m', inv=['forall("tuple[int]", lambda t: iff(t in _Y, t in _vis_m))'])],
               calls={'get_reduced_words': ['rmul(arg_self, w, i)', 'forall("tuple[int]", lambda t: red_split(t, w, arg_self, i), lambda t: rwof(t, w))',
                      'forall("tuple[int]", lambda e: red_cons(e, w, arg_self, i), lambda e: rwof(e, arg_self))', 'forall("tuple[int]", lambda e: (e + (i,))[:len(e)] == e, lambda e: rwof(e, arg_self))',
                      'descent_lowers(w, arg_self, i)', 'height_nonneg(arg_self)']},
               prove=['forall("tuple[int]", lambda t: rwof_last(t, self), lambda t: rwof(t, self))', 'forall("tuple[int]", lambda t: rwof_empty(t, self), lambda t: rwof(t, self))', 'forall("tuple[int]", lambda t: iff(rwof(t, self), redword(t, self._oneline)), lambda t: redword(t, self._oneline))'], props=['C08', 'C17'])
    # ---- reflections and special elements
    d('refs', 'x,i,j', '(-j if x == i else (-i if x == j else (j if x == -i else (i if x == -j else x))))')
    d('reft', 'x,i,j', '(j if x == i else (i if x == j else (-j if x == -i else (-i if x == -j else x))))')
    r.contract(P + 'reflection_s', variant='two', params={'i': 'int', 'j': 'int'}, returns=W, requires=['i >= 1'], raises='i > j', ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == refs(x, i, j))'],
               calls={'__init__': ['touch(arg_oneline[i - 1], arg_oneline[j - 1])', 'forall("int", lambda k: implies(1 <= k and k <= j, abs(arg_oneline[(j if k == i else (i if k == j else k)) - 1]) == k))']}, **C)
    r.contract(P + 'reflection_s', variant='one', params={'i': 'int', 'j': '=None'}, returns=W, requires=['i >= 1'], ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == refs(x, i, i))'],
               calls={'__init__': ['forall("int", lambda k: implies(1 <= k and k <= i, abs(arg_oneline[k - 1]) == k))']}, **C)
    r.contract(P + 'reflection_t', params={'i': 'int', 'j': 'int'}, returns=W, requires=['i >= 1', 'j >= 1'], ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == reft(x, old(i), old(j)))'],
               calls={'__init__': ['forall("int", lambda k: implies(1 <= k and k <= j, abs(arg_oneline[(j if k == i else (i if k == j else k)) - 1]) == k))']}, **C)
    r.contract(P + 'transposition', params={'i': 'int', 'j': 'int'}, returns=W, requires=['i >= 1', 'j >= 1'], ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == reft(x, i, j))'], **C)
    r.contract(P + 'longest_unsigned', params={'n': 'int'}, returns=W, ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == ((n + 1 - x) if 1 <= x and x <= n else ((-n - 1 - x) if -n <= x and x <= -1 else x)))'],
               calls={'__init__': ['forall("int", lambda k: implies(1 <= k and k <= n, abs(arg_oneline[n - k]) == k))']}, **C)
    r.contract(P + 'longest_element', params={'n': 'int', 'signed': 'bool'}, returns=W,
               ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == ((-x if -n <= x and x <= n else x) if signed else ((n + 1 - x) if 1 <= x and x <= n else ((-n - 1 - x) if -n <= x and x <= -1 else x))))'],
               calls={'__init__': ['forall("int", lambda k: implies(1 <= k and k <= n, abs(arg_oneline[k - 1]) == k))']}, **C)
    r.contract(P + 'is_identity', params={'self': W}, returns='bool', requires=['pinv(self)'], ensures=['iff(result, forall("int", lambda i: ev(self, i) == i))'], **C)
    r.contract(P + 'is_involution', params={'self': W}, returns='bool', requires=['pinv(self)'], ensures=['iff(result, forall("int", lambda i: ev(self, ev(self, i)) == i))'],
               prove=['forall("int", lambda j: ev_all(self, j))'], **C)
    r.contract(P + 'is_unsigned', params={'self': W}, returns='bool', requires=['pinv(self)'], ensures=['iff(result, forall("int", lambda i: implies(i > 0, ev(self, i) > 0)))'], prove=['entries(self._oneline)'], **C)
    r.contract(P + 'neg', params={'self': W}, returns='list[tup[int,int]]', requires=['pinv(self)'], ensures=['forall("int,int", lambda a, b: iff((a, b) in result, a == b and a < 0 and ev(self, a) == -a))', 'distinct(result)'],
               prove=['forall("int", lambda a: ev_odd(self, a))'], props=['C07', 'C08'])
    r.contract(P + 'fix', params={'self': W}, returns='list[tup[int,int]]', requires=['pinv(self)'], ensures=['forall("int,int", lambda a, b: iff((a, b) in result, a == b and 0 < a and a <= len(self._oneline) and ev(self, a) == a))', 'distinct(result)'], props=['C07', 'C08'])
    r.contract(P + 'pair', params={'self': W}, returns='list[tup[int,int]]', requires=['pinv(self)'], ensures=['forall("int,int", lambda a, b: iff((a, b) in result, 0 < abs(a) and abs(a) < b and ev(self, a) == b))', 'distinct(result)'],
               prove=['forall("int", lambda a: implies(abs(a) > len(self._oneline), ev(self, a) == a), lambda a: ev(self, a))'], props=['C07', 'C08'])
    r.contract(P + 'cycle', params={'args': 'tuple[int]'}, returns=W, requires=['forall("int", lambda k: implies(0 <= k and k < len(args), args[k] >= 1))'],
               ensures=['pinv(result)', 'forall("int", lambda x: ev(result, x) == cycev(args, len(args) - 1, x))'],
               loops=[Loop('for i in range(len(args) - 1)', tag='i', inv=['pinv(ans)', 'forall("int", lambda x: ev(ans, x) == cycev(args, _n_i, x))'])], **C)
    r.specfn('cycev', {'t': 'tuple[int]', 'n': 'int', 'x': 'int'}, 'int', 'x if n <= 0 else cycev(t, n - 1, reft(x, t[n - 1], t[n]))')
    r.lemma('star_sp', params={'w': W, 't': 'tuple[int]'}, requires=['pinv(w)', 'len(t) == len(w._oneline)', 'forall("int", lambda i: implies(0 <= i and i < len(w._oneline), w._oneline[i] > 0 and t[len(t) - 1 - i] == len(t) + 1 - w._oneline[i]), lambda i: w._oneline[i])'],
            ensures=['sp(t)'], uses=['forall("int", lambda j: star_onto(w, t, j))', 'forall("int", lambda k: implies(0 <= k and k < len(t), t[k] == len(t) + 1 - w._oneline[len(t) - 1 - k] and abs(w._oneline[len(t) - 1 - k]) <= len(t)), lambda k: t[k])'], **C)
    r.lemma('star_onto', params={'w': W, 't': 'tuple[int]', 'j': 'int'}, requires=['1 <= j', 'j <= len(t)', 'pinv(w)', 'len(t) == len(w._oneline)', 'forall("int", lambda i: implies(0 <= i and i < len(w._oneline), w._oneline[i] > 0 and t[len(t) - 1 - i] == len(t) + 1 - w._oneline[i]), lambda i: w._oneline[i])'],
            ensures=['exists("int", lambda i: 0 <= i and i < len(t) and abs(t[i]) == j)'], uses=['ev_onto(w, len(t), len(t) + 1 - j)', 'obtain("int", lambda a: 1 <= a and a <= len(t) and abs(ev(w, a)) == len(t) + 1 - j)', 'w._oneline[a - 1] == ev(w, a)', 'touch(t[len(t) - a])'], **C)
    r.contract(P + 'star', params={'self': W}, returns=W, requires=['pinv(self)', 'forall("int", lambda i: implies(0 <= i and i < len(self._oneline), self._oneline[i] > 0))'],
               ensures=['pinv(result)', 'forall("int", lambda x: implies(1 <= x and x <= len(self._oneline), ev(result, x) == len(self._oneline) + 1 - ev(self, len(self._oneline) + 1 - x)))', 'forall("int", lambda x: implies(x > len(self._oneline), ev(result, x) == x))'],
               calls={'__init__': ['star_sp(self, arg_oneline)']}, **C)
