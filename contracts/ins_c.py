"""Contracts on /repo/insertion.py: the states of the insertion algorithms (C16)."""
from pyvc.spec import Loop

IS = 'insertion.InsertionState.'
BX = 'tup[int,int]'


def register(r):
    d = r.define
    C = dict(props=['C16'])
    T = 'tuple[int]'
    r.contract('insertion.InsertionAlgorithm._check_record', params={'word': T, 'record': T, 'multisetvalued': 'bool'}, returns='dict[int,int]',
               raises='len(word) != len(record) or exists("int", lambda i: 0 <= i and i < len(record) - 1 and (record[i] > record[i + 1] or record[i] == record[i + 1] and iff(multisetvalued, word[i] > word[i + 1])))',
               ensures=['forall("int", lambda x: iff(x in result, x != 0 and -len(word) <= x and x <= len(word)))', 'forall("int", lambda i: implies(0 <= i and i < len(word), result[i + 1] == record[i] and result[-i - 1] == -record[i]))'],
               loops=[Loop('for i, a in enumerate(record)', tag='r', inv=['forall("int", lambda x: iff(x in mapping, x != 0 and -_i_r <= x and x <= _i_r))', 'forall("int", lambda i: implies(0 <= i and i < _i_r, mapping[i + 1] == record[i] and mapping[-i - 1] == -record[i]))'])], **C)
    for cls in ('HState', 'FState'):
        r.model(cls, 'insertion.' + cls, {'tableau': 'Tableau', 'outer': 'opt[%s]' % BX, 'inner_dimensions': BX})
    # largest row and column outside of the outer box
    d('inbox', 's,i,j', '(i, j) in s.tableau.boxes and not (not isnone(s.outer) and the(s.outer) == (i, j))')
