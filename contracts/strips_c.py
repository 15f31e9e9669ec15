"""Contracts on /repo/tableaux.py: enumeration of strips (C10)."""
from pyvc.spec import Loop

TB = 'tableaux.Tableau.'
T = 'tuple[int]'
BOXES = 'set[tup[int,int]]'
TRIP = 'tup[%s,%s,list[tup[int,int]]]' % (T, BOXES)


def register(r):
    d = r.define
    C = dict(props=['C10'])
    d('contained', 'lam,mu', 'len(lam) <= len(mu) and forall("int", lambda a: implies(0 <= a and a < len(lam), lam[a] <= mu[a]))')
    # rows u between core and mu, and how many boxes u has more than core in its first n rows
    r.specfn('rows_between', {'core': T, 'mu': T, 'u': T}, 'bool', 'len(core) == len(mu) and len(u) == len(mu) and forall("int", lambda i: implies(0 <= i and i < len(mu), core[i] <= u[i] and u[i] <= mu[i]), lambda i: u[i])', fuel=1)
    r.specfn('exc', {'core': T, 'u': T, 'n': 'int'}, 'int', '0 if n <= 0 else exc(core, u, n - 1) + u[n - 1] - core[n - 1]', fuel=1)
    r.specfn('bump', {'u': T, 'i': 'int', 'e': 'int'}, T, 'u[:i] + (u[i] + e,) + u[i + 1:]', fuel=1)
    r.specfn('trim1', {'u': T}, T, 'u if len(u) > 0 and u[len(u) - 1] > 0 else u[:-1]', fuel=1)
    r.specfn('bumped', {'v': T, 'i': 'int', 'u': T}, 'bool', 'len(u) == len(v) and forall("int", lambda t: implies(0 <= t and t < len(v), u[t] == (v[t] + 1 if t == i else v[t])), lambda t: u[t])', fuel=1)
    d('xs', 'core,u', 'exc(core, u, len(u))')
    PB = {'core': T, 'mu': T, 'u': T}
    RB = 'rows_between(core, mu, u)'
    r.lemma('exc_pos', params=dict(PB, n='int'), dec='n', ih=['core, mu, u, n - 1'], requires=[RB, '0 <= n and n <= len(mu)'], uses=['touch(u[n - 1])'],
            ensures=['0 <= exc(core, u, n)', 'exc(core, u, n) <= exc(core, mu, n)', 'exc(core, u, n) > 0 or forall("int", lambda i: implies(0 <= i and i < n, u[i] == core[i]))'], **C)
    r.lemma('exc_same', params={'core': T, 'u': T, 'v': T, 'n': 'int'}, dec='n', ih=['core, u, v, n - 1'], requires=['0 <= n and n <= len(u) and n <= len(v) and n <= len(core)', 'forall("int", lambda i: implies(0 <= i and i < n, u[i] == v[i]))'],
            ensures=['exc(core, u, n) == exc(core, v, n)'], **C)
    r.lemma('exc_bump', params={'core': T, 'u': T, 'i': 'int', 'e': 'int', 'n': 'int'}, dec='n', ih=['core, u, i, e, n - 1'], requires=['len(core) == len(u)', '0 <= i and i < n and n <= len(u)'],
            uses=['exc_same(core, u, bump(u, i, e), n - 1)'], ensures=['exc(core, bump(u, i, e), n) == exc(core, u, n) + e'], **C)
    r.lemma('exc_self', params={'core': T, 'n': 'int'}, dec='n', ih=['core, n - 1'], requires=['0 <= n and n <= len(core)'], ensures=['exc(core, core, n) == 0'], **C)
    r.lemma('exc_zero', params=dict(PB, n='int'), dec='n', ih=['core, mu, u, n - 1'], requires=[RB, '0 <= n and n <= len(mu)'],
            ensures=['exc(core, u, n) == 0 or exists("int", lambda i: 0 <= i and i < n and u[i] > core[i])'], **C)
    r.lemma('row_down', params=PB, requires=[RB, 'xs(core, u) > 0'],
            uses=['exc_zero(core, mu, u, len(mu))', 'obtain("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i])', 'exc_bump(core, u, i, -1, len(u))', 'rows_between(core, mu, bump(u, i, -1))', 'same(bump(bump(u, i, -1), i, 1), u)'],
            ensures=['exists("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i] and rows_between(core, mu, bump(u, i, -1)) and xs(core, bump(u, i, -1)) == xs(core, u) - 1 and same(bump(bump(u, i, -1), i, 1), u) and u[i] <= mu[i], lambda i: bump(u, i, -1))'], **C)
    r.lemma('row_up', params=dict(PB, i='int'), requires=[RB, '0 <= i and i < len(mu) and u[i] < mu[i]'], uses=['exc_bump(core, u, i, 1, len(u))'],
            ensures=['rows_between(core, mu, bump(u, i, 1))', 'xs(core, bump(u, i, 1)) == xs(core, u) + 1'], **C)
    r.lemma('row_up2', params={'core': T, 'mu': T, 'v': T, 'u': T, 'i': 'int'}, requires=['rows_between(core, mu, v)', '0 <= i and i < len(mu) and v[i] < mu[i]', 'bumped(v, i, u)'], uses=['same(u, bump(v, i, 1))', 'row_up(core, mu, v, i)'],
            ensures=['rows_between(core, mu, u)', 'xs(core, u) == xs(core, v) + 1'], **C)
    r.lemma('row_level', params=dict(PB, t='int'), dec='xs(core, u) - t', requires=[RB, '0 <= t and t <= xs(core, u)'],
            uses=['row_down(core, mu, u)', 'implies(t < xs(core, u), obtain("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i] and rows_between(core, mu, bump(u, i, -1)) and xs(core, bump(u, i, -1)) == xs(core, u) - 1))',
                  'IH(core, mu, bump(u, i, -1), t)'],
            ensures=['exists("tuple[int]", lambda v: rows_between(core, mu, v) and xs(core, v) == t)'], **C)
    r.lemma('trim1_of', params=PB, requires=[RB, 'forall("int", lambda i: implies(0 <= i and i < len(core) - 1, core[i] > 0))', 'nonneg(core)'],
            ensures=['forall("int", lambda i: implies(1 <= i and i <= len(mu), pget(trim1(u), i) == u[i - 1]))', 'len(trim1(u)) <= len(mu) and trimmed(trim1(u))'], **C)
    r.lemma('trim1_inj', params={'u': T, 'v': T}, requires=['len(u) == len(v)', 'forall("int", lambda i: implies(0 <= i and i < len(u) - 1, u[i] > 0 and v[i] > 0))', 'nonneg(u) and nonneg(v)', 'trim1(u) == trim1(v)'],
            uses=['len(u) == 0 or u[len(u) - 1] == v[len(u) - 1]', 'forall("int", lambda i: implies(0 <= i and i < len(u) - 1, trim1(u)[i] == u[i] and trim1(v)[i] == v[i]))', 'same(u, v)'], ensures=['u == v'], **C)

    # the same for strictly decreasing rows
    r.specfn('rdec', {'u': T}, 'bool', 'forall("int,int", lambda a, b: implies(0 <= a and b == a + 1 and b < len(u), u[b] < u[a]), lambda a, b: (u[a], u[b]))', fuel=1)
    r.lemma('exc_last', params=dict(PB, n='int'), dec='n', ih=['core, mu, u, n - 1'], requires=[RB, '0 <= n and n <= len(mu)'],
            ensures=['exc(core, u, n) == 0 or exists("int", lambda i: 0 <= i and i < n and u[i] > core[i] and forall("int", lambda t: implies(i < t and t < n, u[t] == core[t]), lambda t: u[t]), lambda i: u[i])'], **C)
    r.lemma('row_down_s', params=PB, requires=[RB, 'xs(core, u) > 0', 'rdec(u)', 'rdec(core)'],
            uses=['exc_last(core, mu, u, len(mu))', 'obtain("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i] and forall("int", lambda t: implies(i < t and t < len(mu), u[t] == core[t]), lambda t: u[t]))', 'exc_bump(core, u, i, -1, len(u))', 'rows_between(core, mu, bump(u, i, -1))',
                  'implies(i + 1 < len(mu), u[i + 1] == core[i + 1] and core[i + 1] < core[i])', 'rdec(bump(u, i, -1))', 'same(bump(bump(u, i, -1), i, 1), u)', 'i == 0 or u[i] < u[i - 1]'],
            ensures=['exists("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i] and rows_between(core, mu, bump(u, i, -1)) and rdec(bump(u, i, -1)) and xs(core, bump(u, i, -1)) == xs(core, u) - 1 and same(bump(bump(u, i, -1), i, 1), u) and u[i] <= mu[i] and (i == 0 or u[i] < u[i - 1]), lambda i: bump(u, i, -1))'], **C)
    r.lemma('row_up2_s', params={'core': T, 'mu': T, 'v': T, 'u': T, 'i': 'int'}, requires=['rows_between(core, mu, v)', 'rdec(v)', '0 <= i and i < len(mu) and v[i] < mu[i]', 'i == 0 or 1 + v[i] < v[i - 1]', 'bumped(v, i, u)'], uses=['same(u, bump(v, i, 1))', 'row_up(core, mu, v, i)', 'touch(u[i - 1])'],
            ensures=['rows_between(core, mu, u)', 'rdec(u)', 'xs(core, u) == xs(core, v) + 1'], **C)
    r.lemma('row_level_s', params=dict(PB, t='int'), dec='xs(core, u) - t', requires=[RB, 'rdec(u)', 'rdec(core)', '0 <= t and t <= xs(core, u)'],
            uses=['row_down_s(core, mu, u)', 'implies(t < xs(core, u), obtain("int", lambda i: 0 <= i and i < len(mu) and u[i] > core[i] and rows_between(core, mu, bump(u, i, -1)) and rdec(bump(u, i, -1)) and xs(core, bump(u, i, -1)) == xs(core, u) - 1))',
                  'IH(core, mu, bump(u, i, -1), t)'],
            ensures=['exists("tuple[int]", lambda v: rows_between(core, mu, v) and rdec(v) and xs(core, v) == t)'], **C)

    def entry(name, off, corner='True'):
        """off: column before the first box of row i; corner: extra condition for a corner of nu in row i."""
        d(name, 'y,core,mu',
          'len(y[0]) <= len(mu) and trimmed(y[0]) and forall("int", lambda i: implies(1 <= i and i <= len(mu), core[i - 1] <= pget(y[0], i) and pget(y[0], i) <= mu[i - 1])) and '
          'forall("int,int", lambda i, j: iff((i, j) in y[1], 1 <= i and i <= len(mu) and pget(y[0], i) + %(o)s < j and j <= mu[i - 1] + %(o)s)) and '
          'forall("int,int", lambda i, j: iff((i, j) in y[2], 1 <= i and i <= len(y[0]) and core[i - 1] < y[0][i - 1] and j == y[0][i - 1] + %(o)s and %(c)s)) and distinct(y[2])' % dict(o=off, c=corner))
    entry('hentry', '0')

    def strips(fn, ent, strict=False, shifted=False, corehead='', off='0', corner='True'):
        sx, grow = ('_s', ' and (i == 0 or 1 + v[i] < v[i - 1])') if strict else ('', '')
        up2 = 'row_up2' + sx

        def V(x):
            return ' and rdec(%s)' % x if strict else ''
        seen = '(rows_between(core, mu, u)%s and (xs(core, u) < _w_t or xs(core, u) == _w_t and u in _vis_u))' % V('u')
        done = '(rows_between(core, mu, u)%s and xs(core, u) < _w_t)' % V('u')
        TY = {'ans': 'list[%s]' % TRIP, 'level': 'set[%s]' % T}

        def inv(s):
            return ['forall("int", lambda k: implies(0 <= k and k < len(ans), %s(ans[k], core, mu)), lambda k: ans[k])' % ent,
                    'forall("int", lambda k: implies(0 <= k and k < len(ans), exists("tuple[int]", lambda u: %s and ans[k][0] == trim1(u), lambda u: trim1(u))), lambda k: ans[k])' % s,
                    'forall("tuple[int]", lambda u: implies(%s, exists("int", lambda k: 0 <= k and k < len(ans) and ans[k][0] == trim1(u), lambda k: ans[k])), lambda u: trim1(u))' % s,
                    'forall("int,int", lambda k, m: implies(0 <= k and k < m and m < len(ans), ans[k][0] != ans[m][0]), lambda k, m: (ans[k], ans[m]))']
        cf = fn.strip('_') + '_core'
        r.specfn(cf, {'mu': T, 'lam': T}, T, 'tuple(seqof("int", len(mu), lambda i: max(%s, lam[i]) if i < len(lam) else %s))' % (corehead, corehead), fuel=1)
        CORE = '(max(%s, lam[i]) if i < len(lam) else %s)' % (corehead, corehead)
        r.contract(TB + fn, params={'mu': T, 'lam': T}, returns='list[%s]' % TRIP, requires=['isstrict(mu)' if shifted else 'ispart(mu)', 'isstrict(lam)' if shifted else 'ispart(lam)'],
                   ensures=['implies(not contained(lam, mu), len(result) == 0)'] + ['implies(contained(lam, mu), %s)' % e.replace('ans', 'result').replace('core', '%s(mu, lam)' % cf) for e in inv('(rows_between(core, mu, u)%s)' % V('u'))],
                   loops=[Loop('for i in range(len(lam))', tag='c', types={'core': 'list[int]'}, inv=['len(core) == len(mu)', 'forall("int", lambda i: implies(0 <= i and i < len(mu), core[i] == (%s if i < _n_c else %s)), lambda i: core[i])' % (CORE, corehead)]),
                          Loop('while level', tag='t', types=TY, dec='xs(core, mu) + 1 - _w_t',
                               init=['exc_self(core, len(mu))', 'forall("tuple[int]", lambda u: exc_pos(core, mu, u, len(mu)), lambda u: exc(core, u, len(mu)))', 'rows_between(core, mu, core)'] + (['rdec(core)'] if strict else []) + [
                                     'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u) and xs(core, u) == 0, same(u, core)), lambda u: xs(core, u))'],
                               inv=['forall("tuple[int]", lambda u: implies(u in level, rows_between(core, mu, u)%s and xs(core, u) == _w_t), lambda u: (u in level, ))' % V('u'),
                                    'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u)%s and xs(core, u) == _w_t, u in level), lambda u: xs(core, u))' % V('u'), '_w_t <= xs(core, mu) + 1'] + (['rdec(core)'] if strict else []) + ['forall("int", lambda i: implies(0 <= i and i < len(core) - 1, core[i] > 0), lambda i: core[i])'] + inv(done),
                               hints=['forall("tuple[int]", lambda u: exc_pos(core, mu, u, len(mu)), lambda u: exc(core, u, len(mu)))', 
                                      'forall("tuple[int],int", lambda u, i: row_up(core, mu, u, i), lambda u, i: bump(u, i, 1))',
                                      'forall("tuple[int]", lambda u: row_down%s(core, mu, u), lambda u: xs(core, u))' % sx,
                                      'abstract(level, forall("tuple[int],int", lambda v, i: implies(%(g)s, bump(v, i, 1) in level), lambda v, i: bump(v, i, 1)), '
                                      'forall("tuple[int]", lambda u: implies(u in level, exists("int,tuple[int]", lambda i, v: %(g)s and bumped(v, i, u), lambda i, v: (v in level0, v[i]))), lambda u: (u in level, )))' % dict(g='v in level0 and 0 <= i and i < len(mu) and v[i] < mu[i]' + grow),
                                      'forall("int,tuple[int],tuple[int]", lambda i, v, u: %s(core, mu, v, u, i), lambda i, v, u: bumped(v, i, u))' % up2,
                                      'forall("tuple[int]", lambda u: implies(u in level, rows_between(core, mu, u)%s and xs(core, u) == _w_t))' % V('u'),
                                      'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u)%s and xs(core, u) == _w_t, exists("int", lambda i: 0 <= i and i < len(mu) and rows_between(core, mu, bump(u, i, -1))%s and xs(core, bump(u, i, -1)) == _w_t - 1 and same(bump(bump(u, i, -1), i, 1), u) and u[i] <= mu[i]%s, lambda i: bump(u, i, -1))), lambda u: xs(core, u))' % (V('u'), V('bump(u, i, -1)'), ' and (i == 0 or u[i] < u[i - 1])' if strict else ''),
                                      'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u)%s and xs(core, u) == _w_t, exists("int", lambda i: 0 <= i and i < len(mu) and bump(u, i, -1) in level0 and same(bump(bump(u, i, -1), i, 1), u) and u[i] <= mu[i]%s, lambda i: bump(u, i, -1))), lambda u: xs(core, u))' % (V('u'), ' and (i == 0 or u[i] < u[i - 1])' if strict else ''),
                                      'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u)%s and xs(core, u) == _w_t, u in level), lambda u: xs(core, u))' % V('u')],
                               exit=['forall("tuple[int]", lambda u: row_level%s(core, mu, u, _w_t), lambda u: xs(core, u))' % sx,
                                     'forall("tuple[int]", lambda u: implies(rows_between(core, mu, u)%s, xs(core, u) < _w_t), lambda u: rows_between(core, mu, u))' % V('u'), 'same(core, %s(mu, lam))' % cf]),
                          Loop('for nu in level', tag='u', types=TY, fix=['ans'], inv=inv(seen),
                               step=['rows_between(core, mu, nu)', 'trim1_of(core, mu, nu)', 'forall("tuple[int]", lambda u: trim1_inj(u, nu), lambda u: trim1(u))'],
                               hints=['forall("int", lambda k: implies(0 <= k and k < len(ans0), ans[k] == ans0[k]), lambda k: ans0[k])',
                                      'forall("tuple[int]", lambda u: implies(%s, exists("int", lambda k: 0 <= k and k < len(ans0) and ans[k][0] == trim1(u), lambda k: ans[k])), lambda u: trim1(u))' % seen.replace('_vis_u', '_vis_u0'),
                                      'same(nu, trim1(_x_u))', 'forall("int,int", lambda i, j: iff((i, j) in diff, 1 <= i and i <= len(mu) and pget(nu, i) + %s < j and j <= mu[i - 1] + %s))' % (off, off),
                                      'forall("int", lambda i: implies(1 <= i and i <= len(nu) and core[i - 1] < nu[i - 1] and %s, 0 <= rank(corners, i - 1) and rank(corners, i - 1) < len(corners) and corners[rank(corners, i - 1)][0] == i and corners[rank(corners, i - 1)][1] == nu[i - 1] + %s))' % (corner.replace('y[0]', 'nu'), off),
                                      'forall("int", lambda k: implies(0 <= k and k < len(corners), 1 <= corners[k][0] and corners[k][0] <= len(nu) and core[corners[k][0] - 1] < nu[corners[k][0] - 1] and corners[k][1] == nu[corners[k][0] - 1] + %s and %s))' % (off.replace('i', 'corners[k][0]'), corner.replace('i', 'corners[k][0]').replace('y[0]', 'nu')),
                                      'distinct(corners)', 'forall("int,int", lambda i, j: iff((i, j) in corners, 1 <= i and i <= len(nu) and core[i - 1] < nu[i - 1] and j == nu[i - 1] + %s and %s))' % (off, corner.replace('y[0]', 'nu')),
                                      'same(ans[len(ans0)][0], trim1(_x_u))', 'same(ans[len(ans0)][1], diff)', 'same(ans[len(ans0)][2], corners)', '%s(ans[len(ans0)], core, mu)' % ent,
                                      'forall("tuple[int]", lambda u: implies(%s, %s or u == _x_u), lambda u: trim1(u))' % (seen, seen.replace('_vis_u', '_vis_u0'))])], **C)
    strips('_horizontal_strips', 'hentry', corehead='(mu[i + 1] if i + 1 < len(mu) else 0)')
    entry('shentry', 'i - 1')
    strips('_shifted_horizontal_strips', 'shentry', shifted=True, off='i - 1', corehead='(mu[i + 1] + 1 if i + 1 < len(mu) else 0)')
    CC = '(i == len(y[0]) or 1 + y[0][i] < y[0][i - 1])'
    entry('sventry', 'i - 1', CC)
    strips('_shifted_vertical_strips', 'sventry', strict=True, shifted=True, off='i - 1', corehead='(mu[i] - 1)', corner=CC)

    # vertical strips are the transposes of the horizontal strips of the transposed shapes
    r.lemma('conj_diag0', params={'mu': T, 'i': 'int', 'a': 'int'}, requires=['ispart(mu)', 'a >= 0 and i >= 1'], uses=['implies(len(mu) > 0 and i <= len(mu), mu[i - 1] <= mu[0])', 'implies(a < pget(mu, 1), count_greater(mu, a, len(mu)))', 'len(conj(mu)) == pget(mu, 1)',
                  'implies(a < len(conj(mu)), conj(mu)[a] == ngt(mu, a, len(mu)))'], ensures=['iff(indiag(conj(mu), a + 1, i), indiag(mu, i, a + 1))'], **C)
    r.lemma('conj_diag', params={'mu': T, 'i': 'int', 'j': 'int'}, requires=['ispart(mu)', 'j >= 1 and i >= 1'], uses=['conj_diag0(mu, i, j - 1)'], ensures=['iff(indiag(conj(mu), j, i), indiag(mu, i, j))'], **C)
    r.lemma('conj_same', params={'a': T, 'b': T, 'i': 'int', 'j': 'int'}, requires=['ispart(a)', 'ispart(b)', 'conj(a) == conj(b)'], uses=['implies(i >= 1 and j >= 1, conj_diag(a, i, j))', 'implies(i >= 1 and j >= 1, conj_diag(b, i, j))'], ensures=['iff(indiag(a, i, j), indiag(b, i, j))'], **C)
    r.lemma('conj_inj', params={'a': T, 'b': T}, requires=['ispart(a)', 'ispart(b)', 'conj(a) == conj(b)'], uses=['forall("int,int", lambda i, j: conj_same(a, b, i, j))', 'diagram_determines(a, b)'], ensures=['a == b'], **C)
    r.lemma('hentry_part', params={'mu': T, 'lam': T, 'nu': T}, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'len(nu) <= len(mu) and trimmed(nu)', 'forall("int", lambda i: implies(1 <= i and i <= len(mu), horizontal_strips_core(mu, lam)[i - 1] <= pget(nu, i) and pget(nu, i) <= mu[i - 1]))'],
            uses=['forall("int", lambda i: implies(0 < i and i < len(nu), horizontal_strips_core(mu, lam)[i - 1] >= mu[i] and nu[i - 1] >= horizontal_strips_core(mu, lam)[i - 1] and nu[i - 1] >= nu[i]))', 'forall("int,int", lambda a, b: adj_wdec(nu, a, b))'], ensures=['ispart(nu)'], **C)
    r.lemma('conj_cont1', params={'mu': T, 'lam': T, 'j': 'int'}, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', '1 <= j and j <= len(conj(lam))'], ensures=['j <= len(conj(mu)) and conj(lam)[j - 1] <= conj(mu)[j - 1]'],
            uses=['conj_diag(lam, 1, j)', 'conj_diag(mu, 1, j)', 'conj_diag(lam, conj(lam)[j - 1], j)', 'conj_diag(mu, conj(lam)[j - 1], j)'], **C)
    r.lemma('conj_contained', params={'mu': T, 'lam': T}, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)'], ensures=['contained(conj(lam), conj(mu))'],
            uses=['forall("int", lambda j: conj_cont1(mu, lam, j))', 'len(conj(lam)) == 0 or len(conj(lam)) <= len(conj(mu))', 'forall("int", lambda a: implies(0 <= a and a < len(conj(lam)), a + 1 <= len(conj(mu)) and conj(lam)[a] <= conj(mu)[a]))'], **C)
    r.specfn('flip', {'a': T, 'b': BOXES, 'c': 'list[tup[int,int]]', 'nu': T, 'core': T, 'mu': T}, 'bool', 'a == conj(nu) and forall("int,int", lambda i, j: iff((j, i) in b, 1 <= i and i <= len(mu) and pget(nu, i) < j and j <= mu[i - 1])) and '
      'forall("int,int", lambda i, j: iff((j, i) in c, 1 <= i and i <= len(nu) and core[i - 1] < nu[i - 1] and j == nu[i - 1])) and distinct(c)', fuel=1)
    d('flipped', 'y,nu,core,mu', 'flip(y[0], y[1], y[2], nu, core, mu)')
    CO = 'horizontal_strips_core(conj(mu), conj(lam))'
    r.contract(TB + '_vertical_strips', params={'mu': T, 'lam': T}, returns='list[%s]' % TRIP, requires=['ispart(mu)', 'ispart(lam)'],
               loops=[Loop('for nu, diff, corners in strips', tag='v', types={'ans': 'list[%s]' % TRIP}, fix=['ans', 'diff', 'corners'],
                           inv=['len(ans) == _i_v', 'forall("int", lambda k: implies(0 <= k and k < len(ans), flipped(ans[k], strips[k][0], %s, conj(mu))), lambda k: ans[k])' % CO],
                           hints=['forall("int", lambda k: implies(0 <= k and k < len(ans0), ans[k] == ans0[k]), lambda k: ans0[k])', 'forall("int,int", lambda i, j: iff((j, i) in diff, (i, j) in strips[_i_v0][1]))', 'len(corners) == len(strips[_i_v0][2])', 'forall("int", lambda k: implies(0 <= k and k < len(corners), corners[k][0] == strips[_i_v0][2][k][1] and corners[k][1] == strips[_i_v0][2][k][0]))',
                                  'distinct(corners)', 'forall("int,int", lambda i, j: iff((j, i) in corners, (i, j) in strips[_i_v0][2]))', 'forall("int,int", lambda i, j: iff((j, i) in diff, 1 <= i and i <= len(conj(mu)) and pget(strips[_i_v0][0], i) < j and j <= conj(mu)[i - 1]))',
                                  'hentry(strips[_i_v0], %s, conj(mu))' % CO,
                                  'forall("int", lambda k: implies(0 <= k and k < len(corners), (Y[2][k][0], Y[2][k][1]) in Y[2]))'.replace('Y', 'strips[_i_v0]'),
                                  'forall("int", lambda k: implies(0 <= k and k < len(Y[2]), 1 <= Y[2][k][0] and Y[2][k][0] <= len(Y[0]) and %s[Y[2][k][0] - 1] < Y[0][Y[2][k][0] - 1] and Y[2][k][1] == Y[0][Y[2][k][0] - 1]), lambda k: Y[2][k])'.replace('Y', 'strips[_i_v0]') % CO,
                                  'forall("int", lambda k: implies(0 <= k and k < len(corners), 1 <= corners[k][1] and corners[k][1] <= len(Y[0]) and %s[corners[k][1] - 1] < Y[0][corners[k][1] - 1] and corners[k][0] == Y[0][corners[k][1] - 1]))'.replace('Y', 'strips[_i_v0]') % CO,
                                  'forall("int", lambda a: implies(0 <= a and a < len(Y[0]) and %s[a] < Y[0][a], (a + 1, Y[0][a]) in Y[2]), lambda a: Y[0][a])'.replace('Y', 'strips[_i_v0]') % CO,
                                  'forall("int", lambda a: implies(0 <= a and a < len(Y[0]) and %s[a] < Y[0][a], exists("int", lambda k: 0 <= k and k < len(Y[2]) and Y[2][k][0] == a + 1 and Y[2][k][1] == Y[0][a], lambda k: Y[2][k])), lambda a: Y[0][a])'.replace('Y', 'strips[_i_v0]') % CO,
                                  'forall("int", lambda k: implies(0 <= k and k < len(Y[2]), k < len(corners) and corners[k][0] == Y[2][k][1] and corners[k][1] == Y[2][k][0]), lambda k: Y[2][k])'.replace('Y', 'strips[_i_v0]'),
                                  'forall("int", lambda a: implies(0 <= a and a < len(Y[0]) and %s[a] < Y[0][a], exists("int", lambda k: 0 <= k and k < len(corners) and corners[k][1] == a + 1 and corners[k][0] == Y[0][a], lambda k: corners[k])), lambda a: Y[0][a])'.replace('Y', 'strips[_i_v0]') % CO,
                                  'forall("int,int", lambda i, j: iff((j, i) in corners, 1 <= i and i <= len(strips[_i_v0][0]) and %s[i - 1] < strips[_i_v0][0][i - 1] and j == strips[_i_v0][0][i - 1]))' % CO, 'nu == conj(strips[_i_v0][0])', 'flip(nu, diff, corners, strips[_i_v0][0], %s, conj(mu))' % CO, 'same(ans[len(ans0)][0], nu)', 'same(ans[len(ans0)][1], diff)', 'same(ans[len(ans0)][2], corners)', 'flipped(ans[len(ans0)], strips[_i_v0][0], %s, conj(mu))' % CO])],
               prove=['conj_contained(mu, lam)', 'conj_contained(conj(mu), conj(lam))', 'implies(contained(conj(lam), conj(mu)), forall("int", lambda k: implies(0 <= k and k < len(strips), hentry_part(conj(mu), conj(lam), strips[k][0])), lambda k: strips[k]))',
                      'implies(contained(conj(lam), conj(mu)), forall("int", lambda k: implies(0 <= k and k < len(strips), ispart(strips[k][0])), lambda k: strips[k]))',
                      'forall("int,int", lambda k, m: implies(0 <= k and k < m and m < len(strips) and contained(conj(lam), conj(mu)), conj_inj(strips[k][0], strips[m][0])), lambda k, m: (strips[k], strips[m]))',
                      'forall("int", lambda k: implies(0 <= k and k < len(_final), _final[k][0] == conj(strips[k][0])), lambda k: _final[k])',
                      'forall("int,int", lambda k, m: implies(0 <= k and k < m and m < len(strips) and contained(conj(lam), conj(mu)), conj(strips[k][0]) != conj(strips[m][0])), lambda k, m: (strips[k], strips[m]))',
                      'implies(contained(conj(lam), conj(mu)), forall("tuple[int]", lambda u: implies(rows_between(%s, conj(mu), u), exists("int", lambda k: 0 <= k and k < len(strips) and strips[k][0] == trim1(u), lambda k: strips[k])), lambda u: trim1(u)))' % CO,
                      'implies(contained(conj(lam), conj(mu)), forall("tuple[int]", lambda u: implies(rows_between(%s, conj(mu), u), exists("int", lambda k: 0 <= k and k < len(_final) and strips[k][0] == trim1(u) and _final[k][0] == conj(trim1(u)), lambda k: (strips[k], _final[k]))), lambda u: trim1(u)))' % CO],
               ensures=['implies(not contained(conj(lam), conj(mu)), len(result) == 0)',
                        'implies(contained(conj(lam), conj(mu)), forall("int", lambda k: implies(0 <= k and k < len(result), exists("tuple[int]", lambda u: rows_between(%s, conj(mu), u) and flipped(result[k], trim1(u), %s, conj(mu)), lambda u: trim1(u))), lambda k: result[k]))' % (CO, CO),
                        'implies(contained(conj(lam), conj(mu)), forall("tuple[int]", lambda u: implies(rows_between(%s, conj(mu), u), exists("int", lambda k: 0 <= k and k < len(result) and result[k][0] == conj(trim1(u)), lambda k: result[k])), lambda u: trim1(u)))' % CO,
                        'implies(contained(conj(lam), conj(mu)), forall("int,int", lambda k, m: implies(0 <= k and k < m and m < len(result), result[k][0] != result[m][0]), lambda k, m: (result[k], result[m])))'], **C)
