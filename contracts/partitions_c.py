"""Contracts on /repo/partitions.py (class Partition)."""
from pyvc.spec import Loop

P = 'partitions.Partition.'


def register(r):
    d = r.define
    d('pget', 'mu,i', 'mu[i-1] if (1 <= i and i <= len(mu)) else 0')
    d('wdec', 'mu', 'forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(mu), mu[a] >= mu[b]))')
    d('sdec', 'mu', 'forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(mu), mu[a] > mu[b]))')
    d('nonneg', 'mu', 'forall("int", lambda a: implies(0 <= a and a < len(mu), mu[a] >= 0))')
    d('pos', 'mu', 'forall("int", lambda a: implies(0 <= a and a < len(mu), mu[a] > 0))')
    d('ispart', 'mu', 'wdec(mu) and pos(mu)')
    d('isstrict', 'mu', 'sdec(mu) and pos(mu)')
    d('indiag', 'mu,i,j', '1 <= j and j <= pget(mu, i)')
    d('inshdiag', 'mu,i,j', 'i <= j and j <= i - 1 + pget(mu, i)')
    d('istrim', 'mu,res', 'len(res) <= len(mu) and forall("int", lambda a: implies(0 <= a and a < len(res), res[a] == mu[a])) and '
      'forall("int", lambda a: implies(len(res) <= a and a < len(mu), mu[a] == 0)) and (len(res) == 0 or res[len(res)-1] != 0)')
    d('trimmed', 'mu', 'len(mu) == 0 or mu[len(mu)-1] != 0')

    r.lemma('adj_wdec', params={'mu': 'tuple[int]', 'a': 'int', 'b': 'int'}, dec='b - a',
            requires=['0 <= a and a < b and b < len(mu)', 'forall("int", lambda i: implies(0 < i and i < len(mu), mu[i-1] >= mu[i]))'],
            ensures=['mu[a] >= mu[b]'], ih=['mu, a, b - 1'], uses=['touch(b-1)'], props=['C04'])
    r.lemma('adj_sdec', params={'mu': 'tuple[int]', 'a': 'int', 'b': 'int'}, dec='b - a',
            requires=['0 <= a and a < b and b < len(mu)', 'forall("int", lambda i: implies(0 < i and i < len(mu), mu[i-1] > mu[i]))'],
            ensures=['mu[a] > mu[b]'], ih=['mu, a, b - 1'], props=['C04'])

    for kind in ('tuple', 'list'):
        r.contract(P + 'trim', variant=kind, params={'mu': kind + '[int]'}, returns='tuple[int]', pure=True,
                   ensures=['istrim(mu, result)'],
                   loops=[Loop('while mu and mu[-1] == 0', inv=['len(mu) <= len(old(mu))', 'forall("int", lambda a: implies(0 <= a and a < len(mu), mu[a] == old(mu)[a]))',
                                                               'forall("int", lambda a: implies(len(mu) <= a and a < len(old(mu)), old(mu)[a] == 0))'], dec='len(mu)')],
                   props=['C04'])
        r.contract(P + 'get', variant=kind, params={'mu': kind + '[int]', 'i': 'int'}, returns='int', macro='pget(mu, i)', props=['C04'])
        r.contract(P + 'isin', variant=kind, params={'mu': kind + '[int]', 'i': 'int', 'j': 'int', 'shifted': 'bool'}, returns='bool',
                   macro='(inshdiag(mu, i, j) if shifted else indiag(mu, i, j))', props=['C04'])
    r.contract(P + 'isin_shifted', params={'mu': 'tuple[int]', 'i': 'int', 'j': 'int'}, returns='bool', macro='inshdiag(mu, i, j)', props=['C04'])
    r.contract(P + 'is_partition', params={'mu': 'tuple[int]'}, returns='bool', macro='wdec(mu) and nonneg(mu)',
               prove=['forall("int,int", lambda a, b: implies(_final, adj_wdec(mu, a, b)))'], props=['C04'])
    for nm in ('is_strict', 'is_strict_partition'):
        r.contract(P + nm, params={'mu': 'tuple[int]'}, returns='bool', macro='sdec(mu)',
                   prove=['forall("int,int", lambda a, b: implies(_final, adj_sdec(mu, a, b)))'], props=['C04'])
    for kb in ('tuple', 'list'):
        r.contract(P + 'contains', variant=kb, params={'bigger': kb + '[int]', 'smaller': 'tuple[int]'}, returns='bool',
               macro='len(smaller) <= len(bigger) and forall("int", lambda a: implies(0 <= a and a < len(smaller), 0 <= smaller[a] and smaller[a] <= bigger[a]))',
               ensures=['implies(pos(smaller) and nonneg(bigger), iff(result, forall("int,int", lambda i, j: implies(indiag(smaller, i, j), indiag(bigger, i, j)))))'],
               prove=['implies(pos(smaller) and nonneg(bigger) and not result, exists("int", lambda i: 0 <= i and i < len(smaller) and indiag(smaller, i + 1, smaller[i]) and not indiag(bigger, i + 1, smaller[i])))'],
               props=['C04'])
    r.contract(P + 'shape', params={'mu': 'tuple[int]'}, returns='set[tup[int,int]]', macro='setof("tup[int,int]", lambda i, j: indiag(mu, i, j))',
               loops=[Loop('for i, a in enumerate(mu)', tag='r', inv=['forall("int,int", lambda x, y: iff((x, y) in ans, x <= _i_r and indiag(mu, x, y)))'], types={'ans': 'set[tup[int,int]]'}),
                      Loop('for j in range(a)', inv=['forall("int,int", lambda x, y: iff((x, y) in ans, (x <= _i_r and indiag(mu, x, y)) or (x == _i_r + 1 and 1 <= y and y <= _n)))'])],
               props=['C04'])
    r.contract(P + 'shifted_shape', variant='one', params={'mu': 'tuple[int]', 'nu': '=None'}, returns='set[tup[int,int]]', dec='0',
               macro='setof("tup[int,int]", lambda i, j: inshdiag(mu, i, j))',
               loops=[Loop('for i, a in enumerate(mu)', tag='r', inv=['forall("int,int", lambda x, y: iff((x, y) in ans, x <= _i_r and inshdiag(mu, x, y)))'], types={'ans': 'set[tup[int,int]]'}),
                      Loop('for j in range(a)', inv=['forall("int,int", lambda x, y: iff((x, y) in ans, (x <= _i_r and inshdiag(mu, x, y)) or (x == _i_r + 1 and x <= y and y <= _n + _i_r)))'])],
               props=['C04'])
    r.contract(P + 'shifted_shape', variant='skew', params={'mu': 'tuple[int]', 'nu': 'tuple[int]'}, returns='set[tup[int,int]]', dec='1',
               macro='setof("tup[int,int]", lambda i, j: inshdiag(mu, i, j) and not inshdiag(nu, i, j))', props=['C04'])
    r.contract(P + 'skew', params={'mu': 'tuple[int]', 'nu': 'tuple[int]', 'shifted': 'bool'}, returns='set[tup[int,int]]',
               requires=['nonneg(nu)'],
               macro='setof("tup[int,int]", lambda i, j: ((inshdiag(mu, i, j) and not inshdiag(nu, i, j)) if shifted else (indiag(mu, i, j) and not indiag(nu, i, j))))',
               loops=[Loop('for i, part in enumerate(mu)', tag='r', types={'ans': 'set[tup[int,int]]'},
                           inv=['forall("int,int", lambda x, y: iff((x, y) in ans, x <= _i_r and pget(nu, x) < y - (x - 1 if shifted else 0) and y - (x - 1 if shifted else 0) <= pget(mu, x)))']),
                      Loop('for j in range(subpart, part)', inv=['forall("int,int", lambda x, y: iff((x, y) in ans, (x <= _i_r and pget(nu, x) < y - (x - 1 if shifted else 0) and y - (x - 1 if shifted else 0) <= pget(mu, x)) '
                           'or (x == _i_r + 1 and subpart < y - (x - 1 if shifted else 0) and y - (x - 1 if shifted else 0) <= _n)))'])],
               props=['C04'])
    r.contract(P + 'union', params={'p': 'tuple[int]', 'q': 'tuple[int]'}, returns='tuple[int]', pure=True, requires=['nonneg(p) and nonneg(q)'],
               ensures=['forall("int", lambda i: implies(i >= 1, pget(result, i) == max(pget(p, i), pget(q, i))))', 'trimmed(result)',
                        'implies(wdec(p) and wdec(q), wdec(result) and pos(result))'],
               prove=['forall("int", lambda i: implies(i >= 1, pget(result, i) == max(pget(p, i), pget(q, i))))'],
               props=['C04'])
    r.contract(P + 'add_box_to_row', params={'p': 'tuple[int]', 'row': 'int'}, returns='tuple[int]', pure=True, requires=['row >= 1', 'nonneg(p)'],
               ensures=['forall("int", lambda i: implies(i >= 1, pget(result, i) == pget(p, i) + (1 if i == row else 0)))', 'trimmed(result)'], props=['C05'])

    r.define('ngt', 'mu,j,k', 'len([i for i in range(k) if mu[i] > j])')
    r.lemma('count_greater', params={'mu': 'tuple[int]', 'j': 'int', 'k': 'int'}, dec='k', requires=['wdec(mu)', '0 <= k and k <= len(mu)'],
            ensures=['0 <= ngt(mu, j, k) and ngt(mu, j, k) <= k', 'forall("int", lambda a: implies(0 <= a and a < k, iff(a < ngt(mu, j, k), mu[a] > j)))'],
            ih=['mu, j, k - 1'], props=['C04'])
    r.specfn('conj', {'mu': 'tuple[int]'}, 'tuple[int]', 'tuple(seqof("int", pget(mu, 1), lambda j: ngt(mu, j, len(mu))))', fuel=1)
    r.contract(P + 'transpose', params={'mu': 'tuple[int]'}, returns='tuple[int]', pure=True, requires=['ispart(mu)'],
               ensures=['ispart(result)', 'forall("int,int", lambda i, j: iff(indiag(result, j, i), indiag(mu, i, j)))',
                        'len(result) == pget(mu, 1)', 'result == conj(mu)'],
               prove=['forall("int", lambda j: implies(0 <= j and j < len(_final), count_greater(mu, j, len(mu))))', 'forall("int", lambda j: implies(0 <= j and j < len(_final), _final[j] == ngt(mu, j, len(mu))))',
                      'forall("int", lambda j: implies(0 <= j and j < len(_final), 0 <= _final[j] and _final[j] <= len(mu)))',
                      'forall("int,int", lambda j, i: implies(0 <= j and j < len(_final) and 0 <= i and i < len(mu), iff(i < _final[j], mu[i] > j)))',
                      'forall("int", lambda i: implies(0 <= i and i < len(mu), mu[i] <= mu[0]))',
                      'forall("int,int", lambda i, j: implies(1 <= j and j <= len(_final) and 1 <= i and i <= len(mu), iff(i <= _final[j-1], mu[i-1] >= j)))', 'same(_final, conj(mu))'],
               props=['C04'])
