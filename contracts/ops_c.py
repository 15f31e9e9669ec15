"""Contracts on /repo/dualops.py, /repo/operators.py, /repo/boxes.py (C19)."""
from pyvc.spec import Loop
from contracts.vector_c import vec_instance

T = 'tuple[int]'


def register(r):
    d = r.define
    C = dict(props=['C19'])
    d('samerows', 'nu,mu,i', 'forall("int", lambda k: implies(k >= 1 and k != i, pget(nu, k) == pget(mu, k)))')
    # nu is mu with the boxes of row i on the diagonals a, ..., b
    r.specfn('hstrip', {'mu': T, 'nu': T, 'a': 'int', 'b': 'int', 'i': 'int'}, 'bool', 'i >= 1 and pget(mu, i) == a and pget(nu, i) == b + 1 and samerows(nu, mu, i) and isstrict(nu)')
    # nu is mu with one box in each of the rows i - (b - a), ..., i, on the diagonals b, ..., a
    r.specfn('vstrip', {'mu': T, 'nu': T, 'a': 'int', 'b': 'int', 'i': 'int'}, 'bool', 'i - (b - a) >= 1 and forall("int", lambda k: implies(i - (b - a) <= k and k <= i, pget(mu, k) == a + (i - k))) and '
      'forall("int", lambda k: implies(k >= 1, pget(nu, k) == pget(mu, k) + (1 if i - (b - a) <= k and k <= i else 0))) and isstrict(nu)')
    r.lemma('gap', params={'mu': T, 'a': 'int', 'b': 'int'}, dec='b - a', requires=['isstrict(mu)', '1 <= a and a <= b', 'pget(mu, b) > 0'], ih=['mu, a, b - 1'],
            ensures=['pget(mu, a) >= pget(mu, b) + (b - a)'], **C)
    for nm, v in (('hstrip', 'horizontal'), ('vstrip', 'vertical')):
        q = 'dualops.sh_%s_strip.op' % v
        r.contract(q, variant='none', params={'mu': '=None'}, captures={'a': 'int', 'b': 'int'}, returns='opt[%s]' % T, ensures=['isnone(result)'], **C)
        r.contract(q, params={'mu': T}, captures={'a': 'int', 'b': 'int'}, returns='opt[%s]' % T, requires=['isstrict(mu)', '0 <= a and a <= b'],
                   loops=[Loop('while Partition.isin_shifted(mu, i, j)', inv=['i >= 1', 'j == i + a', 'forall("int", lambda k: implies(1 <= k and k < i, pget(mu, k) > a))'], dec='len(mu) + 1 - i')],
                   prove=['forall("int", lambda k: implies(1 <= k and k <= i and pget(mu, i) > 0, gap(mu, k, i)))', 'forall("int", lambda k: implies(1 <= k and k < i, gap(mu, k, i - 1)))', 'forall("int", lambda k: implies(1 <= h and h <= k and pget(mu, k) > 0, gap(mu, h, k)))',
                          'implies(not isnone(_final), forall("int", lambda k: implies(i - (b - a) <= k and k <= i, pget(mu, k) == a + (i - k))))',
                          'implies(not isnone(_final), forall("int", lambda k: implies(k >= 1, pget(the(_final), k) == pget(mu, k) + (1 if i - (b - a) <= k and k <= i else 0))))',
                          'implies(not isnone(_final), isstrict(the(_final)))', 'implies(not isnone(_final), vstrip(mu, the(_final), a, b, i))'] if nm == 'vstrip' else ['implies(not isnone(_final), hstrip(mu, the(_final), a, b, i))'],
                   ensures=['implies(not isnone(result), exists("int", lambda k: %s(mu, the(result), a, b, k)))' % nm,
                            'implies(isnone(result), forall("tuple[int],int", lambda nu, k: not %s(mu, nu, a, b, k)))' % nm], **C)

    # ---- operators.py: linear extensions of operators on strict partitions; R is the ring of coefficients
    vec_instance(r, 'OVector', T, 'R', ['C03', 'C19'], scalars=['R'])
    r.gconst('operators.beta', 'R', 'X(0)')
    SK = 'forall("tuple[int]", lambda m: implies(m in vector.dictionary, isstrict(m)))'
    DOM = dict(params={'vector': 'OVector'}, captures={'index': 'int'}, returns='OVector', requires=['nzOVector(vector)', SK], decorated='operator_decorator')
    # coefficient of nu in the image of mu
    r.specfn('hasin', {'mu': T, 'd': 'int'}, 'bool', 'exists("int", lambda i: inner_corner(mu, d, i))')
    r.specfn('plusbox', {'nu': T, 'mu': T, 'i': 'int'}, 'bool', 'shifted_by(nu, mu, i, 1)')
    r.specfn('addsto', {'mu': T, 'd': 'int', 'nu': T}, 'bool', 'isstrict(nu) and exists("int", lambda i: outer_corner(mu, d, i) and plusbox(nu, mu, i))')
    r.lemma('outer_uniq', params={'mu': T, 'd': 'int', 'i': 'int', 'k': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'outer_corner(mu, d, i)', 'outer_corner(mu, d, k)'], ensures=['i == k'], **C)
    r.lemma('rows_eq', params={'x': T, 'y': T}, requires=['isstrict(x)', 'isstrict(y)', 'forall("int", lambda i: implies(i >= 1, pget(x, i) == pget(y, i)))'], ensures=['x == y'],
            uses=['pget(x, len(x)) > 0 or len(x) == 0', 'pget(y, len(y)) > 0 or len(y) == 0', 'pget(x, len(y)) == pget(y, len(y))', 'pget(x, len(x)) == pget(y, len(x))', 'len(x) == len(y)', 'forall("int", lambda i: implies(0 <= i and i < len(x), pget(x, i + 1) == pget(y, i + 1)), lambda i: x[i])'], **C)
    r.lemma('adds_uniq', params={'mu': T, 'd': 'int', 'x': T, 'y': T}, requires=['isstrict(mu)', 'd >= 0', 'addsto(mu, d, x)', 'addsto(mu, d, y)'], ensures=['x == y'],
            uses=['obtain("int", lambda i: outer_corner(mu, d, i) and plusbox(x, mu, i))', 'obtain("int", lambda k: outer_corner(mu, d, k) and plusbox(y, mu, k))', 'outer_uniq(mu, d, i, k)', 'rows_eq(x, y)'], **C)
    r.lemma('add_strict', params={'mu': T, 'nu': T, 'd': 'int', 'row': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'outer_corner(mu, d, row)', 'shifted_by(nu, mu, row, 1)', 'len(nu) == (len(mu) if row <= len(mu) else len(mu) + 1)'], ensures=['isstrict(nu)'],
            uses=['row <= len(mu) + 1', 'forall("int", lambda i: implies(0 <= i and i < len(nu), nu[i] == pget(mu, i + 1) + (1 if i == row - 1 else 0)), lambda i: nu[i])',
                  'forall("int", lambda i: implies(1 <= i and i < len(mu), pget(mu, i) > pget(mu, i + 1)))'], **C)
    r.lemma('excl', params={'mu': T, 'd': 'int', 'nu': T}, requires=['isstrict(mu)', 'd >= 0', 'hasin(mu, d)'], ensures=['not addsto(mu, d, nu)'],
            uses=['obtain("int", lambda i: inner_corner(mu, d, i))', 'implies(addsto(mu, d, nu), obtain("int", lambda k: outer_corner(mu, d, k)))', 'implies(addsto(mu, d, nu), i < k or k < i)', 'implies(addsto(mu, d, nu) and i < k, k - 1 >= i and pget(mu, k - 1) <= pget(mu, i))', 'implies(addsto(mu, d, nu) and k < i, pget(mu, k) > pget(mu, i))'], **C)
    d('addcoef', 'mu,d,nu,be', '(be if hasin(mu, d) else 0) if nu == mu else (1 if addsto(mu, d, nu) else 0)')
    r.fold('addsum', {'v': 'OVector', 'd': 'int', 'nu': T, 'be': 'R'}, 'm', T, 'v.dictionary[m] * addcoef(m, d, nu, be)', rty='R')
    r.contract('operators.operator_shifted_add.op', ensures=['nzOVector(result)', 'forall("tuple[int]", lambda k: vc(result, k) == addsum(vector, abs(index), k, beta, vector.dictionary))'],
               loops=[Loop('for mu, coefficient in vector.items()', tag='m', types={'ans': 'OVector'}, inv=['nzOVector(ans)', 'forall("tuple[int]", lambda k: vc(ans, k) == addsum(vector, abs(index), k, beta, _vis_m))'],
                           hints=['obtain("int", lambda dd: dd == abs(index))', 'isstrict(mu)',
                                  'implies(inner_corner(mu, dd, row), hasin(mu, dd))', 'iff(isnone(row), not (hasin(mu, dd) or exists("int", lambda i: outer_corner(mu, dd, i))))',
                                  'implies(not hasin(mu, dd), outer_corner(mu, dd, row))', 'implies(not hasin(mu, dd), plusbox(nu, mu, row))', 'add_strict(mu, nu, dd, row)', 'addsto(mu, dd, nu)',
                                  'forall("tuple[int]", lambda y: implies(addsto(mu, dd, y), adds_uniq(mu, dd, nu, y)), lambda y: addsto(mu, dd, y))', 'forall("tuple[int]", lambda y: implies(addsto(mu, dd, y), y == nu), lambda y: addsto(mu, dd, y))', 'implies(hasin(mu, dd), forall("tuple[int]", lambda y: excl(mu, dd, y), lambda y: addsto(mu, dd, y)))', 'iff(isnone(row), not hasin(mu, dd) and forall("int", lambda i: not outer_corner(mu, dd, i)))', 'implies(isnone(row), not hasin(mu, dd))', 'nu != mu', 'forall("tuple[int]", lambda y: implies(isnone(row), addcoef(mu, dd, y, beta) == 0), lambda y: addsto(mu, dd, y))', 'forall("tuple[int]", lambda y: implies(hasin(mu, dd), addcoef(mu, dd, y, beta) == (beta if y == mu else 0)), lambda y: addsto(mu, dd, y))', 'forall("tuple[int]", lambda y: implies(not isnone(row) and not hasin(mu, dd), addcoef(mu, dd, y, beta) == (1 if y == nu else 0)), lambda y: addsto(mu, dd, y))'])], **DOM, **C)
    # removing from the end of row i of mu its inner corner on diagonal d and e boxes before it
    r.specfn('minusrow', {'nu': T, 'mu': T, 'i': 'int', 'e': 'int'}, 'bool', 'shifted_by(nu, mu, i, -e)')
    r.specfn('rowrem', {'mu': T, 'd': 'int', 'nu': T, 'e': 'int'}, 'bool', 'isstrict(nu) and exists("int", lambda i: inner_corner(mu, d, i) and minusrow(nu, mu, i, e + 1))')
    r.specfn('rowpre', {'mu': T, 'd': 'int', 'nu': T, 'be': 'R', 'n': 'int'}, 'R', '0 if n <= 0 else rowpre(mu, d, nu, be, n - 1) + ((-be) ** (n - 1) if rowrem(mu, d, nu, n - 1) else 0)', fuel=1)
    r.fold('rowsum', {'v': 'OVector', 'd': 'int', 'nu': T, 'be': 'R'}, 'm', T, 'v.dictionary[m] * rowpre(m, d, nu, be, d + 1)', rty='R')
    r.lemma('inner_uniq', params={'mu': T, 'd': 'int', 'i': 'int', 'k': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'inner_corner(mu, d, i)', 'inner_corner(mu, d, k)'], ensures=['i == k'], **C)
    r.lemma('row_stop', params={'mu': T, 'd': 'int', 'nu': T, 'be': 'R', 'a': 'int', 'n': 'int'}, dec='n - a', requires=['0 <= a and a <= n', 'forall("int", lambda e: implies(a <= e and e < n, not rowrem(mu, d, nu, e)))'],
            ih=['mu, d, nu, be, a, n - 1'], uses=['implies(n > a, rowpre(mu, d, nu, be, n) == rowpre(mu, d, nu, be, n - 1) + ((-be) ** (n - 1) if rowrem(mu, d, nu, n - 1) else 0))'], ensures=['rowpre(mu, d, nu, be, n) == rowpre(mu, d, nu, be, a)'], **C)
    r.lemma('row_none', params={'mu': T, 'd': 'int', 'nu': T, 'e': 'int'}, requires=['forall("int", lambda i: not inner_corner(mu, d, i))'], ensures=['not rowrem(mu, d, nu, e)'], **C)
    r.lemma('row_block', params={'mu': T, 'd': 'int', 'nu': T, 'i': 'int', 'e': 'int', 'f': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'inner_corner(mu, d, i)', 'pget(mu, i + 1) >= d - e', 'pget(mu, i + 1) > 0', 'e <= f'],
            uses=['implies(rowrem(mu, d, nu, f), obtain("int", lambda k: inner_corner(mu, d, k) and minusrow(nu, mu, k, f + 1)))', 'implies(rowrem(mu, d, nu, f), inner_uniq(mu, d, i, k))', 'implies(rowrem(mu, d, nu, f), pget(nu, i) == d - f and pget(nu, i + 1) >= d - e)'], ensures=['not rowrem(mu, d, nu, f)'], **C)
    r.lemma('rem_uniq', params={'mu': T, 'd': 'int', 'x': T, 'y': T, 'e': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'rowrem(mu, d, x, e)', 'rowrem(mu, d, y, e)'], ensures=['x == y'],
            uses=['obtain("int", lambda i: inner_corner(mu, d, i) and minusrow(x, mu, i, e + 1))', 'obtain("int", lambda k: inner_corner(mu, d, k) and minusrow(y, mu, k, e + 1))', 'inner_uniq(mu, d, i, k)', 'rows_eq(x, y)'], **C)
    r.contract('operators.operator_shifted_row_remove.op', ensures=['nzOVector(result)', 'forall("tuple[int]", lambda k: vc(result, k) == rowsum(vector, abs(index), k, beta, vector.dictionary))'],
               loops=[Loop('for mu, coefficient in vector.items()', tag='m', types={'ans': 'OVector'}, inv=['nzOVector(ans)', 'forall("tuple[int]", lambda k: vc(ans, k) == rowsum(vector, abs(index), k, beta, _vis_m))'],
                           hints=['obtain("int", lambda dd: dd == abs(index))', 'isstrict(_x_m)', 'implies(isnone(row), forall("tuple[int],int", lambda k, f: row_none(_x_m, dd, k, f), lambda k, f: rowrem(_x_m, dd, k, f)))',
                                  'implies(not isnone(row) and e <= dd, pget(_x_m, the(row) + 1) >= dd - e and pget(_x_m, the(row) + 1) > 0)',
                                  'implies(not isnone(row) and e <= dd, forall("tuple[int],int", lambda k, f: row_block(_x_m, dd, k, the(row), e, f), lambda k, f: rowrem(_x_m, dd, k, f)))',
                                  'forall("tuple[int],int", lambda k, f: implies(e <= f and f <= dd, not rowrem(_x_m, dd, k, f)), lambda k, f: rowrem(_x_m, dd, k, f))',
                                  'forall("tuple[int]", lambda k: row_stop(_x_m, dd, k, beta, e, dd + 1), lambda k: rowpre(_x_m, dd, k, beta, dd + 1))',
                                  'forall("tuple[int]", lambda k: rowpre(_x_m, dd, k, beta, dd + 1) == rowpre(_x_m, dd, k, beta, e), lambda k: rowpre(_x_m, dd, k, beta, dd + 1))']),
                      Loop('while i >= 0 and row is not None', types={'ans': 'OVector'}, dec='i + 1',
                           hints=['obtain("int", lambda dd: dd == abs(index))', 'isstrict(_x_m)', 'minusrow(mu, _x_m, the(row), e - 1 + 1)', 'rowrem(_x_m, dd, mu, e - 1)', 'forall("tuple[int]", lambda k: implies(rowrem(_x_m, dd, k, e - 1), rem_uniq(_x_m, dd, k, mu, e - 1)), lambda k: rowrem(_x_m, dd, k, e - 1))',
                                  'forall("tuple[int]", lambda k: iff(rowrem(_x_m, dd, k, e - 1), k == mu), lambda k: rowrem(_x_m, dd, k, e - 1))',
                                  'forall("tuple[int]", lambda k: rowpre(_x_m, dd, k, beta, e) == rowpre(_x_m, dd, k, beta, e - 1) + ((-beta) ** (e - 1) if k == mu else 0), lambda k: rowpre(_x_m, dd, k, beta, e))'],
                           inv=['nzOVector(ans)', 'e == abs(index) - i', 'e >= 0', 'i >= -1', 'isstrict(mu)', 'implies(not isnone(row), inner_corner(_x_m, abs(index), the(row)) and shifted_by(mu, _x_m, the(row), -e))',
                                'implies(isnone(row), e == 0 and forall("int", lambda i: not inner_corner(_x_m, abs(index), i)))',
                                'forall("tuple[int]", lambda k: vc(ans, k) == rowsum(vector, abs(index), k, beta, _vis_m) + coefficient * rowpre(_x_m, abs(index), k, beta, e))'])], **DOM, **C)
    # removing the inner corner of mu on diagonal d and the boxes above it in the same column, e in all (rows r - e + 1, ..., r)
    r.specfn('colst', {'nu': T, 'mu': T, 'd': 'int', 'r': 'int', 'e': 'int'}, 'bool', 'inner_corner(mu, d, r) and e <= r and forall("int", lambda k: implies(k >= 1, pget(nu, k) == pget(mu, k) - (1 if r - e < k and k <= r else 0))) and '
      'forall("int", lambda k: implies(r - e < k and k <= r, pget(mu, k) == d + 1 + r - k))')
    r.specfn('colrem', {'mu': T, 'd': 'int', 'nu': T, 'e': 'int'}, 'bool', 'isstrict(nu) and exists("int", lambda i: colst(nu, mu, d, i, e + 1))')
    r.specfn('colpre', {'mu': T, 'd': 'int', 'nu': T, 'be': 'R', 'n': 'int'}, 'R', '0 if n <= 0 else colpre(mu, d, nu, be, n - 1) + ((-be) ** (n - 1) if colrem(mu, d, nu, n - 1) else 0)', fuel=1)
    r.fold('colsum', {'v': 'OVector', 'd': 'int', 'nu': T, 'be': 'R'}, 'm', T, 'v.dictionary[m] * colpre(m, d, nu, be, len(m))', rty='R')
    r.lemma('col_stop', params={'mu': T, 'd': 'int', 'nu': T, 'be': 'R', 'a': 'int', 'n': 'int'}, dec='n - a', requires=['0 <= a and a <= n', 'forall("int", lambda e: implies(a <= e and e < n, not colrem(mu, d, nu, e)))'],
            ih=['mu, d, nu, be, a, n - 1'], uses=['implies(n > a, colpre(mu, d, nu, be, n) == colpre(mu, d, nu, be, n - 1) + ((-be) ** (n - 1) if colrem(mu, d, nu, n - 1) else 0))'], ensures=['colpre(mu, d, nu, be, n) == colpre(mu, d, nu, be, a)'], **C)
    r.lemma('col_none', params={'mu': T, 'd': 'int', 'nu': T, 'e': 'int'}, requires=['forall("int", lambda i: not inner_corner(mu, d, i))'], ensures=['not colrem(mu, d, nu, e)'], **C)
    r.lemma('col_block', params={'mu': T, 'd': 'int', 'cur': T, 'r': 'int', 'e': 'int', 'nu': T, 'f': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'colst(cur, mu, d, r, e)', 'forall("int", lambda i: not inner_corner(cur, d + e, i))', '0 <= e', 'e <= f'],
            uses=['implies(colrem(mu, d, nu, f), obtain("int", lambda k: colst(nu, mu, d, k, f + 1)))', 'implies(colrem(mu, d, nu, f), inner_uniq(mu, d, r, k))', 'implies(colrem(mu, d, nu, f), r - e >= 1 and pget(mu, r - e) == d + 1 + e and pget(cur, r - e) == d + 1 + e)',
                  'implies(colrem(mu, d, nu, f) and e > 0, pget(mu, r - e + 1) == d + e and pget(cur, r - e + 1) == d + e - 1)', 'implies(colrem(mu, d, nu, f), inner_corner(cur, d + e, r - e))'], ensures=['not colrem(mu, d, nu, f)'], **C)
    r.lemma('col_uniq', params={'mu': T, 'd': 'int', 'x': T, 'y': T, 'e': 'int'}, requires=['isstrict(mu)', 'd >= 0', 'colrem(mu, d, x, e)', 'colrem(mu, d, y, e)'], ensures=['x == y'],
            uses=['obtain("int", lambda i: colst(x, mu, d, i, e + 1))', 'obtain("int", lambda k: colst(y, mu, d, k, e + 1))', 'inner_uniq(mu, d, i, k)', 'rows_eq(x, y)'], **C)
    r.lemma('col_first', params={'mu': T, 'd': 'int', 'r': 'int'}, requires=['inner_corner(mu, d, r)'], ensures=['colst(mu, mu, d, r, 0)'], **C)
    # one more box: the inner corner of cur on diagonal d + e is the box above the last one removed
    r.lemma('col_next', params={'mu': T, 'd': 'int', 'cur': T, 'r': 'int', 'e': 'int', 'row': 'int', 'nu': T}, requires=['isstrict(mu)', 'isstrict(cur)', 'd >= 0', 'e >= 0', 'colst(cur, mu, d, r, e)', 'inner_corner(cur, d + e, row)', 'shifted_by(nu, cur, row, -1)', 'ispart(nu)'],
            uses=['pget(mu, r) == d + 1', 'implies(row < r - e, pget(mu, row) > pget(mu, r - e) and pget(cur, row) == pget(mu, row))', 'implies(row < r - e and e > 0, pget(mu, r - e + 1) == d + e)', 'implies(r - e >= 1 and e > 0, pget(mu, r - e) > pget(mu, r - e + 1))', 'implies(row > r - e and row <= r, pget(cur, row) == d + r - row)', 'implies(row > r, pget(mu, row) < d + 1 or pget(mu, row) == 0)', 'row == r - e',
                  'forall("int", lambda i: implies(0 <= i and i < len(nu), nu[i] == pget(cur, i + 1) - (1 if i == row - 1 else 0)), lambda i: nu[i])', 'forall("int", lambda i: implies(1 <= i and pget(cur, i) > 0, pget(cur, i) > pget(cur, i + 1)))'],
            ensures=['colst(nu, mu, d, r, e + 1)', 'isstrict(nu)'], **C)
    r.contract('operators.operator_shifted_column_remove.op', ensures=['nzOVector(result)', 'forall("tuple[int]", lambda k: vc(result, k) == colsum(vector, abs(index), k, beta, vector.dictionary))'],
               loops=[Loop('for mu, coefficient in vector.items()', tag='m', types={'ans': 'OVector'}, inv=['nzOVector(ans)', 'forall("tuple[int]", lambda k: vc(ans, k) == colsum(vector, abs(index), k, beta, _vis_m))'],
                           hints=['obtain("int", lambda dd: dd == abs(index))', 'isstrict(_x_m)',
                                  'implies(e == 0, forall("tuple[int],int", lambda k, f: col_none(_x_m, dd, k, f), lambda k, f: colrem(_x_m, dd, k, f)))',
                                  'implies(e > 0, obtain("int", lambda rr: colst(mu, _x_m, dd, rr, e)))',
                                  'implies(e > 0, forall("tuple[int],int", lambda k, f: col_block(_x_m, dd, mu, rr, e, k, f), lambda k, f: colrem(_x_m, dd, k, f)))',
                                  'forall("tuple[int],int", lambda k, f: implies(e <= f, not colrem(_x_m, dd, k, f)), lambda k, f: colrem(_x_m, dd, k, f))',
                                  'forall("tuple[int]", lambda k: col_stop(_x_m, dd, k, beta, e, len(_x_m)), lambda k: colpre(_x_m, dd, k, beta, len(_x_m)))',
                                  'forall("tuple[int]", lambda k: colpre(_x_m, dd, k, beta, len(_x_m)) == colpre(_x_m, dd, k, beta, e), lambda k: colpre(_x_m, dd, k, beta, len(_x_m)))']),
                      Loop('while row is not None', types={'ans': 'OVector'}, dec='len(_x_m) + 1 - e',
                           hints=['obtain("int", lambda dd: dd == abs(index))', 'isstrict(_x_m)', 'obtain("int", lambda d1: d1 == dd + e0)', 'inner_corner(mu0, d1, row0)', 'implies(e0 == 0, col_first(_x_m, dd, row0))',
                                  'obtain("int", lambda rr: colst(mu0, _x_m, dd, rr, e0))', 'col_next(_x_m, dd, mu0, rr, e0, row0, mu)', 'colst(mu, _x_m, dd, rr, e)', 'rr <= len(_x_m)',
                                  'colrem(_x_m, dd, mu, e - 1)', 'forall("tuple[int]", lambda k: implies(colrem(_x_m, dd, k, e - 1), col_uniq(_x_m, dd, k, mu, e - 1)), lambda k: colrem(_x_m, dd, k, e - 1))',
                                  'forall("tuple[int]", lambda k: iff(colrem(_x_m, dd, k, e - 1), k == mu), lambda k: colrem(_x_m, dd, k, e - 1))',
                                  'forall("tuple[int]", lambda k: colpre(_x_m, dd, k, beta, e) == colpre(_x_m, dd, k, beta, e - 1) + ((-beta) ** (e - 1) if k == mu else 0), lambda k: colpre(_x_m, dd, k, beta, e))'],
                           inv=['nzOVector(ans)', 'i == abs(index) + e', 'e >= 0', 'e <= len(_x_m)', 'isstrict(mu)', 'implies(e == 0, mu == _x_m)', 'implies(e > 0, exists("int", lambda rr: colst(mu, _x_m, abs(index), rr, e)))',
                                'implies(not isnone(row), inner_corner(mu, i, the(row)))', 'implies(isnone(row), forall("int", lambda k: not inner_corner(mu, i, k)))',
                                'forall("tuple[int]", lambda k: vc(ans, k) == colsum(vector, abs(index), k, beta, _vis_m) + coefficient * colpre(_x_m, abs(index), k, beta, e))'])], **DOM, **C)

    # ---- boxes.py: words in the generators r_i (i >= 0) and c_i (coded -i), with a power of beta in front
    r.specfn('boxred', {'t': T}, 'bool', 'forall("int", lambda i: implies(0 <= i and i < len(t) - 1, t[i] != t[i + 1] and t[i] != -t[i + 1]))')
    r.contract('boxes.box_operator_relations', params={'tup': T}, ytype='tup[%s,int]' % T, yseq='[(tup, 1)] if boxred(tup) else []', **C)
    r.contract('boxes.box_operator_multipler', params={'a': T, 'b': T}, ytype='tup[%s,int]' % T, requires=['len(a) >= 1', 'len(b) >= 1'],
               yseq='[((a[0] + b[0],) + (a[1:] + b[1:]), 1)] if boxred(a[1:] + b[1:]) else []',
               loops=[Loop('for tup, coeff in box_operator_relations(a[1:] + b[1:])', tag='t', inv=['_Y == ([((a[0] + b[0],) + (a[1:] + b[1:]), 1)] if _i_t > 0 else [])'])], **C)
