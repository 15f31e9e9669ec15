"""Contracts on /repo/partitions.py: enumerations of compositions and partitions (C06)."""
from pyvc.spec import Loop

P = 'partitions.Partition.'


def register(r):
    d = r.define
    r.specfn('tsum', {'t': 'tuple[int]'}, 'int', '0 if len(t) == 0 else t[0] + tsum(t[1:])')
    r.lemma('tsum_pos', params={'t': 'tuple[int]'}, dec='len(t)', requires=['pos(t)'], ensures=['tsum(t) >= len(t)', 'len(t) == 0 or tsum(t) >= t[0]'],
            ih=['t[1:]'], uses=['len(t) == 0 or pos(t[1:])'], props=['C06'])
    d('iscomp', 't,n', 'pos(t) and tsum(t) == n')
    r.contract(P + 'compositions', params={'n': 'int'}, returns='list[tuple[int]]', pure=True, requires=['n >= 0'], dec='n',
               ensures=['forall("tuple[int]", lambda t: iff(t in result, iscomp(t, n)))', 'distinct(result)'],
               loops=[Loop('for i in range(1, n + 1)', tag='r', types={'ans': 'list[tuple[int]]'},
                           inv=['forall("tuple[int]", lambda t: iff(t in ans, iscomp(t, n) and len(t) > 0 and t[0] < _n_r))', 'distinct(ans)']),
                      Loop('for e in cls.compositions(n - i)', tag='e',
                           inv=['forall("tuple[int]", lambda t: iff(t in ans, iscomp(t, n) and len(t) > 0 and (t[0] < i or (t[0] == i and exists("int", lambda k: 0 <= k and k < _i_e and _s_e[k] == t[1:])))))', 'distinct(ans)'],
                           hints=['((i,) + e)[1:] == e', 'iscomp(e, n - i)', 'iscomp((i,) + e, n)', 'forall("tuple[int]", lambda t: iff(t == (i,) + e, len(t) > 0 and t[0] == i and t[1:] == e), lambda t: t[1:])',
                                 'not ((i,) + e in ans0)', ])],
               prove=['forall("tuple[int]", lambda t: tsum_pos(t), lambda t: tsum(t))'],
               props=['C06'])

    r.gdict('partitions.PARTITIONS', 'dict[tup[int,int,bool,bool],list[tuple[int]]]')
    d('bounded', 'y,max_part,max_row,strict,even_parts',
      '(isnone(max_part) or len(y) == 0 or y[0] <= the(max_part)) and (isnone(max_row) or len(y) <= the(max_row)) and (not strict or sdec(y)) and '
      '(not even_parts or forall("int", lambda a: implies(0 <= a and a < len(y), y[a] % 2 == 0)))')
    d('genpart', 'y,n,max_part,max_row,strict,even_parts', 'ispart(y) and tsum(y) == n and bounded(y, max_part, max_row, strict, even_parts)')
    r.contract(P + 'generate', params={'n': 'int', 'max_part': 'opt[int]', 'max_row': 'opt[int]', 'strict': 'bool', 'even_parts': 'bool'},
               requires=['n >= 0', 'isnone(max_row) or the(max_row) >= 0'], dec='n',
               ytype='tuple[int]', yields='lambda y: genpart(y, n, max_part, max_row, strict, even_parts)',
               loops=[Loop('for i in range(1, max_part + 1)', tag='r', types={'ans': 'list[tuple[int]]'},
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, genpart(y, n, max_part, max_row, strict, even_parts) and len(y) > 0 and y[0] < _n_r))']),
                      Loop('for mu in cls.generate(n - i, i, max_row - 1, strict=strict, even_parts=even_parts)', tag='e',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, genpart(y, n, max_part, max_row, strict, even_parts) and len(y) > 0 and (y[0] < i or (y[0] == i and y[1:] in _vis_e))))'],
                           hints=['((i,) + mu)[1:] == mu', 'forall("tuple[int]", lambda t: iff(t == (i,) + mu, len(t) > 0 and t[0] == i and t[1:] == mu))',
                                  'forall("int", lambda a: implies(0 <= a and a < len(mu), mu[a] <= i))',
                                  'tsum((i,) + mu) == n', 'pos((i,) + mu)', 'wdec((i,) + mu)',
                                  'iff(genpart((i,) + mu, n, max_part, max_row, strict, even_parts), not strict or sdec((i,) + mu))',
                                  'forall("tuple[int]", lambda y: iff(y in _Y, y in _Y0 or (y == (i,) + mu and (not strict or sdec((i,) + mu)))))',
                                  'forall("tuple[int]", lambda y: iff(y in _vis_e, y in _vis_e0 or y == mu))'])],
               prove=['forall("tuple[int]", lambda t: tsum_pos(t), lambda t: tsum(t))'],
               props=['C06', 'C17'])
    r.contract(P + 'all', params={'n': 'int', 'max_part': 'opt[int]', 'max_row': 'opt[int]', 'strict': 'bool', 'even_parts': 'bool'},
               requires=['isnone(max_row) or the(max_row) >= 0'], ytype='tuple[int]',
               yields='lambda y: tsum(y) <= n and ispart(y) and bounded(y, max_part, max_row, strict, even_parts)',
               loops=[Loop('for i in range(n + 1)', tag='r', inv=['forall("tuple[int]", lambda y: iff(y in _Y, tsum(y) < _n_r and ispart(y) and bounded(y, max_part, max_row, strict, even_parts)))'],
                           hints=[]),
                      Loop('for mu in cls.generate(i, max_part=max_part, max_row=max_row, strict=strict, even_parts=even_parts)', tag='e',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, ispart(y) and bounded(y, max_part, max_row, strict, even_parts) and (tsum(y) < i or (tsum(y) == i and y in _vis_e))))'])],
               uses=['forall("tuple[int]", lambda t: tsum_pos(t), lambda t: tsum(t))'], props=['C06'])
    r.contract(P + 'peak_compositions', params={'n': 'int'}, returns='list[tuple[int]]', pure=True, requires=['n >= 0'],
               ensures=['forall("tuple[int]", lambda t: iff(t in result, iscomp(t, n) and forall("int", lambda a: implies(0 <= a and a < len(t) - 1, t[a] >= 2))))', 'distinct(result)'],
               props=['C06'])
    # partitions between nu and mu
    d('between', 'y,mu,lo,i,strict', 'len(y) == len(mu) and nonneg(y) and forall("int", lambda a: implies(0 <= a and a < len(y), pget(lo, i + a) <= y[a] and y[a] <= mu[a])) and '
      'forall("int", lambda a: implies(0 < a and a < len(y), y[a-1] >= y[a] + (1 if strict and y[a] > 0 else 0)))')
    r.contract(P + 'subpartitions._subpartitions', params={'mu': 'tuple[int]', 'strict': 'bool', 'i': 'int'}, captures={'lowerbound': 'tuple[int]'},
               requires=['i >= 1'], dec='len(mu)', ytype='tuple[int]', yields='lambda y: between(y, mu, lowerbound, i, strict)',
               loops=[Loop('for nu in _subpartitions(mu[1:], strict, i + 1)', tag='s',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, between(y, mu, lowerbound, i, strict) and y[1:] in _vis_s))']),
                      Loop('for a in range(lb, ub + 1)', tag='a',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, between(y, mu, lowerbound, i, strict) and (y[1:] in _vis_s or (y[1:] == nu and y[0] < _n_a))))'],
                           hints=['((a,) + nu)[1:] == nu', 'forall("tuple[int]", lambda t: iff(t == (a,) + nu, len(t) > 0 and t[0] == a and t[1:] == nu))', 'between((a,) + nu, mu, lowerbound, i, strict)'])],
               props=['C06'])
    d('padded', 't,n', 'as_tuple(seqof("int", n, lambda i: pget(t, i + 1)))')
    r.lemma('trim_unique', params={'x': 'tuple[int]', 't': 'tuple[int]', 'u': 'tuple[int]'},
            requires=['istrim(x, t)', 'istrim(x, u)'],
            uses=['implies(len(t) < len(u), x[len(u) - 1] == 0 and x[len(u) - 1] != 0)', 'implies(len(u) < len(t), x[len(t) - 1] == 0 and x[len(t) - 1] != 0)', 'len(t) == len(u)'],
            ensures=['t == u'], props=['C06'])
    r.contract(P + 'subpartitions', params={'mu': 'tuple[int]', 'nu': 'tuple[int]', 'strict': 'bool'},
               requires=['nonneg(nu)', 'nonneg(mu)', 'forall("int", lambda i: implies(i > len(mu), pget(nu, i) == 0))'], ytype='tuple[int]',
               yields='lambda y: ispart(y) and (not strict or sdec(y)) and forall("int", lambda i: implies(i >= 1, pget(nu, i) <= pget(y, i) and pget(y, i) <= pget(mu, i)))',
               loops=[Loop('for nu in _subpartitions(mu, strict, 1)', tag='s', inv=['forall("tuple[int]", lambda t: iff(t in _Y, trimmed(t) and len(t) <= len(mu) and padded(t, len(mu)) in _vis_s))'],
                           hints=['len(nu) == len(mu)',
                                  'forall("tuple[int]", lambda t: implies(istrim(nu, t), padded(t, len(mu)) == nu))',
                                  'forall("tuple[int]", lambda t: implies(trimmed(t) and len(t) <= len(mu) and padded(t, len(mu)) == nu, istrim(nu, t)))'])],
               hints=['istrim(nu, _y)', 'trimmed(_y)', 'padded(_y, len(mu)) == nu', 'forall("int,int", lambda a, b: implies(between(nu, mu, lowerbound, 1, strict), adj_wdec(nu, a, b)))', 'wdec(nu)', 'wdec(_y)',
                      'forall("int", lambda a: implies(0 <= a and a < len(_y), _y[a] >= _y[len(_y) - 1]))', 'pos(_y)', 'forall("int,int", lambda a, b: implies(True, adj_sdec(_y, a, b)))', 'not strict or sdec(_y)',
                      'forall("int", lambda i: implies(i >= 1, pget(_y, i) == pget(nu, i)))'],
               prove=['forall("tuple[int]", lambda t: implies(ispart(t) and (not strict or sdec(t)) and forall("int", lambda i: implies(i >= 1, pget(old(nu), i) <= pget(t, i) and pget(t, i) <= pget(mu, i))), '
                      'len(t) <= len(mu) and trimmed(t) and between(padded(t, len(mu)), mu, lowerbound, 1, strict)))'],
               props=['C06'])
    r.contract(P + 'successors', params={'mu': 'tuple[int]', 'strict': 'bool'}, requires=['ispart(mu)', 'not strict or sdec(mu)'], dec='len(mu)', ytype='tuple[int]',
               yields='lambda y: len(y) == len(mu) and wdec(y) and (not strict or sdec(y)) and forall("int", lambda a: implies(0 <= a and a < len(y), mu[a] <= y[a] and y[a] <= mu[a] + 1))',
               loops=[Loop('for i in range(len(mu))', tag='r',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, len(y) == len(mu) and wdec(y) and (not strict or sdec(y)) and forall("int", lambda a: implies(0 <= a and a < len(y), mu[a] <= y[a] and y[a] <= mu[a] + 1)) and exists("int", lambda k: 0 <= k and k < _n_r and y[k] == mu[k] + 1)))']),
                      Loop('for nu in cls.successors(mu[i + 1:], strict)', tag='s',
                           inv=['forall("tuple[int]", lambda y: iff(y in _Y, len(y) == len(mu) and wdec(y) and (not strict or sdec(y)) and forall("int", lambda a: implies(0 <= a and a < len(y), mu[a] <= y[a] and y[a] <= mu[a] + 1)) and (exists("int", lambda k: 0 <= k and k < i and y[k] == mu[k] + 1) or (y[:i] == mu[:i] and y[i] == mu[i] + 1 and y[i+1:] in _vis_s))))'])],
               props=['C06'])
