"""Contracts on /repo/words.py: statistics, zeta functions, quasisymmetrization (C18)."""
from pyvc.spec import Loop

W = 'words.Word.'
TI = 'tuple[int]'


def register(r):
    d = r.define
    C = dict(props=['C18'])
    d('at', 't,i', 't[i - 1]')
    for nm, op in (('increasing', '<'), ('decreasing', '>'), ('weakly_increasing', '<='), ('weakly_decreasing', '>=')):
        short = {'increasing': 'sinc', 'decreasing': 'sdecr', 'weakly_increasing': 'winc', 'weakly_decreasing': 'wdecr'}[nm]
        d(short, 't', 'forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(t), t[a] %s t[b]))' % op)
        r.lemma('adj_' + short, params={'t': TI, 'a': 'int', 'b': 'int'}, dec='b - a', ih=['t, a, b - 1'], requires=['0 <= a and a < b and b < len(t)', 'forall("int", lambda i: implies(0 < i and i < len(t), t[i - 1] %s t[i]))' % op],
                ensures=['t[a] %s t[b]' % op], uses=['touch(b - 1)'], **C)
        r.contract(W + nm + '_zeta', params={'word': TI}, returns='int', macro='1 if %s(word) else 0' % short, prove=['forall("int,int", lambda a, b: implies(_final, adj_%s(word, a, b)))' % short], **C)
    for nm, a, b in (('unimodal', 'sdecr', 'sinc'), ('right_weakly_unimodal', 'sdecr', 'winc'), ('left_weakly_unimodal', 'wdecr', 'sinc'), ('weakly_unimodal', 'wdecr', 'winc')):
        r.contract(W + nm + '_zeta', params={'word': TI}, returns='int', ensures=['result == sum([(1 if %s(word[:i]) else 0) * (1 if %s(word[i:]) else 0) for i in range(len(word) + 1)])' % (a, b)], **C)
    r.contract(W + 'descent_set', params={'v': TI}, returns='set[int]', macro='setof("int", lambda i: 1 <= i and i < len(v) and v[i - 1] > v[i])', **C)
    # quasisymmetrization
    r.absfn('ZF', [TI], 'int')
    r.model('WVector', 'vectors.Vector', {'dictionary': 'dict[tuple[int],int]', 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'})
    V = 'vectors.Vector.'
    r.contract(V + '__init__', variant='words', params={'dictionary': 'dict[tuple[int],int]', 'printer': 'opt[PF]', 'multiplier': 'opt[MF]'}, returns='WVector',
               ensures=['forall("tuple[int]", lambda k: vc(result, k) == kc(dictionary, k))', 'nzw(result)', 'result.printer == printer', 'result.multiplier == multiplier'], props=['C03', 'C18'])
    d('nzw', 'v', 'forall("tuple[int]", lambda k: implies(k in v.dictionary, v.dictionary[k] != 0))')
    # the coefficient of the composition k: the product of zeta over the blocks of w cut at k
    r.specfn('qcoef', {'w': TI, 'k': TI, 'z': 'ZF'}, 'int', '(1 if len(k) == 0 else 0) if len(w) == 0 else (z(w[:k[0]]) * qcoef(w[k[0]:], k[1:], z) if len(k) > 0 and 1 <= k[0] and k[0] <= len(w) else 0)', fuel=1)
    r.contract(W + 'quasisymmetrize', params={'word': TI, 'zeta': 'ZF'}, returns='WVector', dec='len(word)', locals={'ans': 'dict[tuple[int],int]'},
               ensures=['forall("tuple[int]", lambda k: vc(result, k) == qcoef(word, k, zeta))', 'nzw(result)'],
               loops=[Loop('for i in range(1, len(word) + 1)', tag='i', types={'ans': 'dict[tuple[int],int]'}, inv=['forall("tuple[int]", lambda k: kc(ans, k) == (qcoef(word, k, zeta) if len(k) > 0 and k[0] < _n_i else 0))']),
                      Loop('for k, v in cls.quasisymmetrize(sub, zeta).items()', tag='k', types={'ans': 'dict[tuple[int],int]'},
                           inv=['forall("tuple[int]", lambda t: kc(ans, t) == (qcoef(word, t, zeta) if len(t) > 0 and (t[0] < i or t[0] == i and t[1:] in _vis_k) else 0))'],
                           hints=['same(term((i,) + k)[1:], k)', 'qcoef(word[i:], k, zeta) == v', 'term((i,) + k)[0] == i', 'same(word[:term((i,) + k)[0]], word[:i])', 'same(word[term((i,) + k)[0]:], word[i:])', 'qcoef(word[term((i,) + k)[0]:], term((i,) + k)[1:], zeta) == v', 'qcoef(word, (i,) + k, zeta) == zeta(word[:term((i,) + k)[0]]) * qcoef(word[term((i,) + k)[0]:], term((i,) + k)[1:], zeta)', 'qcoef(word, (i,) + k, zeta) == z * v', 'forall("tuple[int]", lambda t: implies(len(t) > 0 and t[0] == i and same(t[1:], k), same(t, (i,) + k)))'])], **C)
