"""Contracts on /repo/tableaux.py (C09, C02)."""
from pyvc.spec import Loop

TB = 'tableaux.Tableau.'
T = 'tuple[int]'
BX = 'dict[tup[int,int],tuple[int]]'
U = 'union[int,tuple[int]]'


def register(r):
    d = r.define
    C = dict(props=['C09'])
    r.model('Tableau', 'tableaux.Tableau', {'boxes': BX}, ignore=['_sorting_word', '_string_array'])
    d('ndec', 's', 'forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(s), s[a] <= s[b]))')
    # the class invariant: boxes in the positive quadrant, entries of a box in increasing order
    d('wft', 't', 'forall("int,int", lambda i, j: implies((i, j) in t.boxes, i > 0 and j > 0 and ndec(t.boxes[(i, j)])))')
    # the entry stored for the value v: an integer alone, or the sorted tuple
    d('entry', 'v', 'tuple(sorted(asseq(v))) if not isint(v) else (asint(v),)')
    UM = 'dict[tup[int,int],%s]' % U
    for nm, mt in (('union', UM), ('seq', BX), ('int', 'dict[tup[int,int],int]')):
        r.contract(TB + '__init__.tuplize', variant=nm, params={'i': 'int', 'j': 'int'}, captures={'mapping': mt}, returns=T, requires=['(i, j) in mapping'], pure=True,
                   macro={'union': 'entry(mapping[(i, j)])', 'seq': 'tuple(sorted(mapping[(i, j)]))', 'int': '(mapping[(i, j)],)'}[nm], **C)
        r.contract(TB + '__init__', variant=nm, params={'mapping': mt}, returns='Tableau', requires=['forall("int,int", lambda i, j: implies((i, j) in mapping, i > 0 and j > 0))'],
                   ensures=['forall("int,int", lambda i, j: iff((i, j) in result.boxes, (i, j) in mapping))', 'wft(result)',
                            'forall("int,int", lambda i, j: implies((i, j) in mapping, result.boxes[(i, j)] == %s))' % {'union': 'entry(mapping[(i, j)])', 'seq': 'tuple(sorted(mapping[(i, j)]))', 'int': '(mapping[(i, j)],)'}[nm]], **C)
    r.contract(TB + '__init__', variant='empty', params={'mapping': '=None'}, returns='Tableau', ensures=['forall("int,int", lambda i, j: (i, j) not in result.boxes)', 'wft(result)'], **C)
    TP = {'self': 'Tableau'}
    WF = ['wft(self)']
    # every box other than (i, j) is kept as it was
    d('keeps', 'r,t,i,j', 'forall("int,int", lambda a, b: implies(not (a == i and b == j), iff((a, b) in r.boxes, (a, b) in t.boxes) and implies((a, b) in t.boxes, r.boxes[(a, b)] == t.boxes[(a, b)])))')
    r.contract(TB + 'size', params=TP, returns='int', ensures=['result == card(setof("tup[int,int]", lambda k: k in self.boxes))'], **C)
    r.contract(TB + '__bool__', params=TP, returns='bool', ensures=['iff(result, exists("int,int", lambda i, j: (i, j) in self.boxes))'], **C)
    r.contract(TB + '__contains__', params=dict(TP, box='tup[int,int]'), returns='bool', macro='box in self.boxes', **C)
    r.contract(TB + 'contains_box', params=dict(TP, i='int', j='int'), returns='bool', macro='(i, j) in self.boxes', **C)
    r.contract(TB + '__eq__', params=dict(TP, other='Tableau'), returns='bool', ensures=['iff(result, forall("int,int", lambda i, j: iff((i, j) in self.boxes, (i, j) in other.boxes) and implies((i, j) in self.boxes, self.boxes[(i, j)] == other.boxes[(i, j)])))'], props=['C02', 'C09'])
    LM = {'mapping': UM}
    for nm, vt in (('int', 'int'), ('tuple', T)):
        r.contract(TB + 'replace', variant=nm, params=dict(TP, i='int', j='int', v=vt), returns='Tableau', locals=LM, requires=WF, raises='(i, j) not in self.boxes',
                   ensures=['wft(result)', '(i, j) in result.boxes', 'result.boxes[(i, j)] == entry(v)', 'keeps(result, self, i, j)'], **C)
    r.contract(TB + 'clear', params=dict(TP, i='int', j='int'), returns='Tableau', requires=WF, raises='(i, j) not in self.boxes', ensures=['wft(result)', '(i, j) not in result.boxes', 'keeps(result, self, i, j)'], **C)
    r.contract(TB + 'add', params=dict(TP, i='int', j='int', v='int'), returns='Tableau', locals=LM, requires=WF, raises='not (i > 0 and j > 0)',
               ensures=['wft(result)', '(i, j) in result.boxes', 'keeps(result, self, i, j)', 'result.boxes[(i, j)] == (tuple(sorted(self.boxes[(i, j)] + (v,))) if (i, j) in self.boxes else (v,))'], **C)
    r.contract(TB + 'set', params=dict(TP, i='int', j='int', v='int'), returns='Tableau', requires=WF, raises='not (i > 0 and j > 0)',
               ensures=['wft(result)', '(i, j) in result.boxes', 'keeps(result, self, i, j)', 'result.boxes[(i, j)] == (v,)'], **C)
    r.contract(TB + '__iter__', params=TP, ytype='tup[int,int,%s]' % T, yields='lambda y: (y[0], y[1]) in self.boxes and y[2] == self.boxes[(y[0], y[1])]',
               loops=[Loop('for i, j in sorted(self.boxes)', tag='b', inv=['forall("int,int,tuple[int]", lambda i, j, v: iff((i, j, v) in _Y, (i, j) in self.boxes and v == self.boxes[(i, j)] and exists("int", lambda k: 0 <= k and k < _i_b and _s_b[k] == (i, j))))'])], **C)
    # reading
    r.contract(TB + 'get', variant='seq', params=dict(TP, i='int', j='int', default='=None', unpack='=False'), returns='opt[%s]' % T, pure=True, macro='self.boxes[(i, j)] if (i, j) in self.boxes else None', **C)
    r.contract(TB + 'get', variant='unpack', params=dict(TP, i='int', j='int', default='=None', unpack='=True'), returns='opt[%s]' % U, pure=True,
               ensures=['iff(isnone(result), (i, j) not in self.boxes)',
                        'implies((i, j) in self.boxes, iff(isint(the(result)), len(self.boxes[(i, j)]) == 1))',
                        'implies((i, j) in self.boxes and len(self.boxes[(i, j)]) == 1, asint(the(result)) == self.boxes[(i, j)][0])',
                        'implies((i, j) in self.boxes and len(self.boxes[(i, j)]) != 1, asseq(the(result)) == self.boxes[(i, j)])'], **C)
    for nm, (me, ot) in dict(get_row='ij', get_column='ji').items():
        for vn, bt in (('', '=None'),):
            r.contract(TB + nm, params=dict(TP, x='int', before='opt[int]', after='opt[int]'), returns='Tableau', requires=WF,
                   ensures=['wft(result)', 'forall("int,int", lambda i, j: iff((i, j) in result.boxes, (i, j) in self.boxes and %s == x and (isnone(before) or %s < the(before)) and (isnone(after) or %s > the(after))))' % (me, ot, ot),
                            'forall("int,int", lambda i, j: implies((i, j) in result.boxes, result.boxes[(i, j)] == self.boxes[(i, j)]))'], **C)
    r.contract(TB + 'remove', variant='box', params=dict(TP, i='int', j='int', v='=None'), returns='Tableau', requires=WF, raises='(i, j) not in self.boxes',
               ensures=['wft(result)', '(i, j) not in result.boxes', 'keeps(result, self, i, j)'], **C)
    # the first occurrence of v in the entry of the box disappears, and the box with it when the entry becomes empty
    r.contract(TB + 'remove', variant='entry', params=dict(TP, i='int', j='int', v='int'), returns='Tableau', requires=WF, raises='(i, j) not in self.boxes or v not in self.boxes[(i, j)]',
               ensures=['wft(result)', 'keeps(result, self, i, j)', 'iff((i, j) in result.boxes, len(self.boxes[(i, j)]) > 1)',
                        'exists("int", lambda k: 0 <= k and k < len(self.boxes[(i, j)]) and self.boxes[(i, j)][k] == v and implies(len(self.boxes[(i, j)]) > 1, result.boxes[(i, j)] == self.boxes[(i, j)][:k] + self.boxes[(i, j)][k + 1:]))'],
               loops=[Loop('while', inv=['k >= 0', 'k < len(self.boxes[(i, j)])', 'exists("int", lambda p: k <= p and p < len(self.boxes[(i, j)]) and self.boxes[(i, j)][p] == v)'], dec='len(self.boxes[(i, j)]) - k')], **C)
    r.contract(TB + 'transpose', params=TP, returns='Tableau', requires=WF, ensures=['wft(result)', 'forall("int,int", lambda i, j: iff((i, j) in result.boxes, (j, i) in self.boxes))',
               'forall("int,int", lambda i, j: implies((i, j) in result.boxes, result.boxes[(i, j)] == self.boxes[(j, i)]))'], **C)
    r.contract(TB + 'find', params=dict(TP, v='int'), returns='list[tup[int,int]]', ensures=['forall("int,int", lambda i, j: iff((i, j) in result, (i, j) in self.boxes and v in self.boxes[(i, j)]))'], **C)
    r.contract(TB + 'values', params=TP, returns='set[int]', ensures=['forall("int", lambda x: iff(x in result, exists("int,int", lambda i, j: (i, j) in self.boxes and x in self.boxes[(i, j)])))'],
               loops=[Loop('for i, j, v in self', tag='b', inv=['forall("int", lambda x: iff(x in ans, exists("int,int", lambda a, b: (a, b, self.boxes[(a, b)]) in _vis_b and x in self.boxes[(a, b)])))'])], **C)
    r.contract(TB + 'max_row', params=dict(TP, col='opt[int]'), returns='int', requires=WF,
               ensures=['result >= 0', 'forall("int,int", lambda i, j: implies((i, j) in self.boxes and (isnone(col) or j == the(col)), i <= result))',
                        'implies(result > 0, exists("int", lambda j: (result, j) in self.boxes and (isnone(col) or j == the(col))))'], **C)
    r.contract(TB + 'max_column', params=dict(TP, row='opt[int]'), returns='int', requires=WF,
               ensures=['result >= 0', 'forall("int,int", lambda i, j: implies((i, j) in self.boxes and (isnone(row) or i == the(row)), j <= result))',
                        'implies(result > 0, exists("int", lambda i: (i, result) in self.boxes and (isnone(row) or i == the(row))))'], **C)
    r.contract(TB + 'last_box_in_row', params=dict(TP, row='int'), returns='opt[int]',
               ensures=['iff(isnone(result), not exists("int", lambda c: (row, c) in self.boxes))', 'implies(not isnone(result), (row, the(result)) in self.boxes and forall("int", lambda c: implies((row, c) in self.boxes, c <= the(result))))'], **C)
    r.contract(TB + 'last_box_in_column', params=dict(TP, col='int'), returns='opt[int]',
               ensures=['iff(isnone(result), not exists("int", lambda c: (c, col) in self.boxes))', 'implies(not isnone(result), (the(result), col) in self.boxes and forall("int", lambda c: implies((c, col) in self.boxes, c <= the(result))))'], **C)
    # applying a function to every entry
    BOXES = 'forall("int,int", lambda i, j: iff((i, j) in result.boxes, (i, j) in self.boxes))'
    r.absfn('IF', ['int'], 'int')
    r.contract(TB + 'apply', params=dict(TP, function='IF'), returns='Tableau', requires=WF,
               ensures=['wft(result)', BOXES, 'forall("int,int", lambda i, j: implies((i, j) in self.boxes, result.boxes[(i, j)] == tuple(sorted([function(v) for v in self.boxes[(i, j)]]))))'], **C)
    r.contract(TB + 'double', params=TP, returns='Tableau', requires=WF,
               ensures=['wft(result)', BOXES, 'forall("int,int", lambda i, j: implies((i, j) in self.boxes, result.boxes[(i, j)] == tuple(2 * v for v in self.boxes[(i, j)])))'], **C)
    r.contract(TB + 'halve', params=TP, returns='Tableau', requires=WF, raises='exists("int,int", lambda i, j: (i, j) in self.boxes and exists("int", lambda k: 0 <= k and k < len(self.boxes[(i, j)]) and self.boxes[(i, j)][k] % 2 != 0))',
               ensures=['wft(result)', BOXES, 'forall("int,int", lambda i, j: implies((i, j) in self.boxes, result.boxes[(i, j)] == tuple(v // 2 for v in self.boxes[(i, j)])))'], **C)
    r.contract(TB + 'negate', params=dict(TP, skipdiagonal='bool'), returns='Tableau', requires=WF,
               ensures=['wft(result)', BOXES, 'forall("int,int", lambda i, j: implies((i, j) in self.boxes, result.boxes[(i, j)] == (self.boxes[(i, j)] if skipdiagonal and i == j else tuple(sorted([-v for v in self.boxes[(i, j)]])))))'], **C)
    r.client('tableau_hash', mod='tableaux', params={'a': 'Tableau', 'b': 'Tableau'}, code='e = a == b\nh = hash(a)\nk = hash(b)', ensures=['implies(e, h == k)'], props=['C02'])
    # the encoding of the alphabet 1' < 1 < 2' < 2 < ...: primed letters become odd, unprimed ones even
    r.specfn('dbl', {'v': 'int'}, 'int', '2 * v if v > 0 else -1 - 2 * v')
    r.contract(TB + 'is_semistandard.dbl', params={'v': 'int'}, returns='int', macro='dbl(v)', props=['C11'])
    NE = ['forall("int,int", lambda i, j: implies((i, j) in self.boxes, len(self.boxes[(i, j)]) > 0))']
    IN = 'forall("int,int", lambda p, q: implies(0 <= p and p < len(self.boxes[(i, j)]) and 0 <= q and q < len(self.boxes[(%s)]), %s))'
    d('ssdiag', 'self,i,j,dp', 'dp or i != j or self.boxes[(i, j)][0] >= 0')
    d('ssright', 'self,i,j', 'implies((i, j + 1) in self.boxes, %s)' % (IN % ('i, j + 1', 'dbl(self.boxes[(i, j)][p]) <= dbl(self.boxes[(i, j + 1)][q]) and (dbl(self.boxes[(i, j)][p]) != dbl(self.boxes[(i, j + 1)][q]) or dbl(self.boxes[(i, j + 1)][q]) % 2 == 0)')))
    d('ssup', 'self,i,j', 'implies((i + 1, j) in self.boxes, %s)' % (IN % ('i + 1, j', 'dbl(self.boxes[(i, j)][p]) <= dbl(self.boxes[(i + 1, j)][q]) and (dbl(self.boxes[(i, j)][p]) != dbl(self.boxes[(i + 1, j)][q]) or dbl(self.boxes[(i + 1, j)][q]) % 2 != 0)')))
    # rows weakly increasing, columns weakly increasing in the order 1' < 1 < 2' < 2 < ..., no unprimed letter twice in a column, no primed letter twice in a row
    r.contract(TB + 'is_semistandard', params=dict(TP, diagonal_primes='bool'), returns='bool', requires=WF + NE,
               ensures=['iff(result, forall("int,int", lambda i, j: implies((i, j) in self.boxes, ssdiag(self, i, j, diagonal_primes) and ssright(self, i, j) and ssup(self, i, j))))'],
               loops=[Loop('for i, j, values in self', tag='b', inv=['forall("int,int", lambda i, j: implies((i, j, self.boxes[(i, j)]) in _vis_b, %s))' % x for x in ('ssdiag(self, i, j, diagonal_primes)', 'ssright(self, i, j)', 'ssup(self, i, j)')],
                           hints=['forall("int", lambda p: implies(0 <= p and p < len(values), dbl(values[p]) <= maxval))',
                                  'implies((i, j + 1) in self.boxes, forall("int", lambda q: implies(0 <= q and q < len(self.boxes[(i, j + 1)]), dbl(self.boxes[(i, j + 1)][q]) >= maxval and (dbl(self.boxes[(i, j + 1)][q]) != maxval or maxval % 2 == 0))))',
                                  'ssright(self, i, j)',
                                  'implies((i + 1, j) in self.boxes, forall("int", lambda q: implies(0 <= q and q < len(self.boxes[(i + 1, j)]), dbl(self.boxes[(i + 1, j)][q]) >= maxval and (dbl(self.boxes[(i + 1, j)][q]) != maxval or maxval % 2 != 0))))',
                                  'ssup(self, i, j)'])], props=['C11'])
    d('all_abs', 'self,n', 'forall("int", lambda x: implies(hasval(self, x), -n <= x and x <= n))')
    r.contract(TB + 'last', params=TP, returns='int', requires=WF + NE,
               raises='exists("int", lambda n: hasval(self, n) and hasval(self, -n) and all_abs(self, abs(n)))',
               ensures=['implies(exists("int,int", lambda i, j: (i, j) in self.boxes), hasval(self, result))', 'forall("int", lambda x: implies(hasval(self, x), x != 0 and abs(x) <= abs(result)))' if False else 'forall("int", lambda x: implies(hasval(self, x), abs(x) <= abs(result)))'], **C)
    d('hasval', 'self,x', 'exists("int,int", lambda i, j: (i, j) in self.boxes and x in self.boxes[(i, j)])')
