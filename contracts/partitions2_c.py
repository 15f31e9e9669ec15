"""Contracts on /repo/partitions.py: conversions between partitions and box sets (C04)."""
from pyvc.spec import Loop

P = 'partitions.Partition.'


def register(r):
    d = r.define
    r.fold('rowcount', {'i': 'int'}, 'e', 'tup[int,int]', '1 if e[0] == i else 0')
    # the first k rows of mu and n boxes of row k + 1
    d('boxes_upto', 'mu,k,n', 'setof("tup[int,int]", lambda x, y: (x <= k and indiag(mu, x, y)) or (x == k + 1 and 1 <= y and y <= n))')
    d('shboxes_upto', 'mu,k,n', 'setof("tup[int,int]", lambda x, y: (x <= k and inshdiag(mu, x, y)) or (x == k + 1 and k + 1 <= y and y <= n + k))')
    for nm, bx, shift in (('row_counts', 'boxes_upto', ''), ('row_counts_shifted', 'shboxes_upto', ' + k')):
        r.lemma(nm, params={'mu': 'tuple[int]', 'k': 'int', 'n': 'int', 'i': 'int'}, dec='(k, n)',
                requires=['nonneg(mu)', '0 <= k and k <= len(mu)', '0 <= n'],
                ensures=['rowcount(i, %s(mu, k, n)) == (pget(mu, i) if i <= k else (n if i == k + 1 else 0))' % bx],
                ih=['mu, k, n - 1, i', 'mu, k - 1, mu[k - 1], i'],
                uses=['implies(n > 0, seteq(%s(mu, k, n), store(%s(mu, k, n - 1), (k + 1, n%s))))' % (bx, bx, shift),
                      'implies(n == 0 and k > 0, seteq(%s(mu, k, n), %s(mu, k - 1, mu[k - 1])))' % (bx, bx),
                      'implies(n == 0 and k == 0, seteq(%s(mu, k, n), emptyset("tup[int,int]")))' % bx], props=['C04'])
    d('row_lengths', 'res,sh', 'forall("int", lambda i: implies(i >= 1, pget(res, i) == rowcount(i, sh)))')
    d('last_row_used', 'res,sh', 'len(res) == 0 or exists("int", lambda y: (len(res), y) in sh)')
    r.contract(P + 'from_shape', params={'sh': 'set[tup[int,int]]'}, returns='tuple[int]', pure=True,
               requires=['forall("int,int", lambda x, y: implies((x, y) in sh, x >= 1))'],
               ensures=['row_lengths(result, sh)', 'last_row_used(result, sh)'],
               loops=[Loop('for i, j in sh', tag='b', types={'ans': 'list[int]'}, inv=['row_lengths(ans, _vis_b)', 'last_row_used(ans, _vis_b)']),
                      Loop('while i > len(ans)', inv=['row_lengths(ans, _vis_b)', 'len(ans) <= i or len(ans) == 0 or exists("int", lambda y: (len(ans), y) in _vis_b)'], dec='max(i - len(ans), 0)')],
               props=['C04'])
    # round trip: reading the rows of the diagram of a partition gives the partition back
    for nm, bx, dg, lem in (('shape_roundtrip', 'boxes_upto', 'indiag', 'row_counts'), ('shifted_shape_roundtrip', 'shboxes_upto', 'inshdiag', 'row_counts_shifted')):
        r.lemma(nm, params={'mu': 'tuple[int]', 'sh': 'set[tup[int,int]]', 'res': 'tuple[int]'},
                requires=['pos(mu)', 'forall("int,int", lambda x, y: iff((x, y) in sh, %s(mu, x, y)))' % dg, 'row_lengths(res, sh)', 'last_row_used(res, sh)'],
                uses=['seteq(sh, %s(mu, len(mu), 0))' % bx, 'forall("int", lambda i: %s(mu, len(mu), 0, i))' % lem,
                      'forall("int", lambda i: implies(i >= 1, pget(res, i) == pget(mu, i)))', 'len(res) <= len(mu)',
                      'implies(len(mu) > 0, pget(res, len(mu)) == mu[len(mu) - 1])', 'len(res) == len(mu)',
                      'forall("int", lambda a: implies(0 <= a and a < len(mu), pget(res, a + 1) == mu[a]))'],
                ensures=['res == mu'], props=['C04'])
    r.lemma('diagram_determines', params={'mu': 'tuple[int]', 'nu': 'tuple[int]'},
            requires=['pos(mu)', 'pos(nu)', 'forall("int,int", lambda x, y: iff(indiag(mu, x, y), indiag(nu, x, y)))'],
            uses=['forall("int", lambda a: implies(0 <= a and a < len(mu), indiag(mu, a + 1, 1) and indiag(nu, a + 1, 1)))',
                  'forall("int", lambda a: implies(0 <= a and a < len(nu), indiag(mu, a + 1, 1) and indiag(nu, a + 1, 1)))',
                  'implies(len(mu) > 0, indiag(nu, len(mu), 1))', 'implies(len(nu) > 0, indiag(mu, len(nu), 1))',
                  'len(mu) == len(nu)',
                  'forall("int", lambda a: implies(0 <= a and a < len(mu), indiag(mu, a + 1, mu[a]) and indiag(nu, a + 1, nu[a])))',
                  'forall("int", lambda a: implies(0 <= a and a < len(mu), indiag(nu, a + 1, mu[a]) and indiag(mu, a + 1, nu[a])))'],
            ensures=['mu == nu'], props=['C04'])
    r.lemma('transpose_involution', params={'mu': 'tuple[int]', 't': 'tuple[int]', 'tt': 'tuple[int]'},
            requires=['ispart(mu)', 'ispart(tt)', 'forall("int,int", lambda i, j: iff(indiag(t, j, i), indiag(mu, i, j)))',
                      'forall("int,int", lambda i, j: iff(indiag(tt, j, i), indiag(t, i, j)))'],
            uses=['forall("int,int", lambda x, y: implies(indiag(tt, x, y), indiag(t, y, x) and indiag(mu, x, y)))',
                  'forall("int,int", lambda x, y: implies(indiag(mu, x, y), indiag(t, y, x) and indiag(tt, x, y)))', 'diagram_determines(mu, tt)'],
            ensures=['tt == mu'], props=['C04'])
