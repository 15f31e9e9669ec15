"""Contracts on /repo/partitions.py: adding and removing boxes (C05)."""
from pyvc.spec import Loop

P = 'partitions.Partition.'


def register(r):
    d = r.define
    # mu with row i changed by e, every other row alone
    d('shifted_by', 'res,mu,row,e', 'forall("int", lambda i: implies(i >= 1, pget(res, i) == pget(mu, i) + (e if i == row else 0)))')
    r.contract(P + 'add', params={'mu': 'tuple[int]', 'row': 'int'}, returns='tuple[int]', requires=['row >= 1'],
               raises='row > len(mu) + 1',
               ensures=['shifted_by(result, mu, row, 1)', 'len(result) == (len(mu) if row <= len(mu) else len(mu) + 1)'], props=['C05'])
    r.contract(P + 'remove_inner_corner', params={'mu': 'tuple[int]', 'row': 'int'}, returns='tuple[int]', pure=True, requires=['ispart(mu)', 'row >= 1'],
               raises='not (1 <= row and row <= len(mu) and pget(mu, row) > pget(mu, row + 1))',
               ensures=['shifted_by(result, mu, row, -1)', 'ispart(result)'], props=['C05'])
    r.contract(P + 'remove_shifted_inner_corner', params={'mu': 'tuple[int]', 'row': 'int'}, returns='opt[tuple[int]]', requires=['isstrict(mu)', 'row >= 1'],
               ensures=['iff(isnone(result), not (1 <= row and row <= len(mu) and (pget(mu, row) > pget(mu, row + 1) + 1 or row == len(mu))))',
                        'implies(not isnone(result), shifted_by(the(result), mu, row, -1) and isstrict(the(result)))'], props=['C05'])
    d('outer_corner', 'mu,d,i', 'i >= 1 and pget(mu, i) == d and (i == 1 or pget(mu, i - 1) > d + 1)')
    d('inner_corner', 'mu,d,i', 'i >= 1 and pget(mu, i) == d + 1 and (pget(mu, i + 1) < d or d == 0)')
    r.contract(P + 'find_shifted_outer_corner', params={'mu': 'tuple[int]', 'diagonal': 'int'}, returns='opt[int]', requires=['isstrict(mu)', 'diagonal >= 0'],
               ensures=['implies(not isnone(result), outer_corner(mu, diagonal, the(result)))',
                        'implies(isnone(result), forall("int", lambda i: not outer_corner(mu, diagonal, i)))'],
               loops=[Loop('while (i, j) in shape', inv=['i >= 1', 'j == i + diagonal', 'forall("int", lambda k: implies(1 <= k and k < i, pget(mu, k) > diagonal))'],
                           dec='len(mu) + 1 - i')],
               props=['C05'])
    r.contract(P + 'find_shifted_inner_corner', params={'mu': 'tuple[int]', 'diagonal': 'int'}, returns='opt[int]', requires=['isstrict(mu)', 'diagonal >= 0'],
               ensures=['implies(not isnone(result), inner_corner(mu, diagonal, the(result)))',
                        'implies(isnone(result), forall("int", lambda i: not inner_corner(mu, diagonal, i)))'],
               loops=[Loop('while (i + 1, j + 1) in shape', inv=['i >= 0', 'j == i + diagonal', 'forall("int", lambda k: implies(1 <= k and k <= i, pget(mu, k) > diagonal))'],
                           dec='len(mu) + 1 - i')],
               props=['C05'])
