"""Contracts on /repo/words.py: crystal operators on words (C15)."""
from pyvc.spec import Loop

W = 'words.Word.'
TI = 'tuple[int]'
LS = 'list[tup[int,int]]'


def register(r):
    d = r.define
    C = dict(props=['C15'])
    # letters i+1 open and letters i close a bracket; bal is the height before position t
    r.specfn('bal', {'w': TI, 'i': 'int', 't': 'int'}, 'int', '0 if t <= 0 else bal(w, i, t - 1) + (1 if w[t - 1] == i + 1 else (-1 if w[t - 1] == i else 0))', fuel=1)
    # s: the letters left after cancelling brackets; between two of them, and at both ends, the height returns to its level and never goes below it
    d('level', 'w,i,a,b', 'a <= b and bal(w, i, b) == bal(w, i, a) and forall("int", lambda t: implies(a <= t and t <= b, bal(w, i, t) >= bal(w, i, a)))')
    d('gapped', 'w,i,s', 'forall("int,int", lambda x, y: implies(0 <= x and y == x + 1 and y < len(s), level(w, i, s[x][0] + 1, s[y][0])), lambda x, y: (s[x], s[y])) and '
      '(level(w, i, 0, s[0][0]) and level(w, i, s[len(s) - 1][0] + 1, len(w)) if len(s) > 0 else level(w, i, 0, len(w)))')
    d('labels', 'w,i,s', 'forall("int", lambda x: implies(0 <= x and x < len(s), 0 <= s[x][0] and s[x][0] < len(w) and s[x][1] == w[s[x][0]] and (s[x][1] == i or s[x][1] == i + 1)))')
    d('noadj', 's,k', 'forall("int,int", lambda x, y: implies(0 <= x and y == x + 1 and y < len(s) and x < k, s[x][1] <= s[y][1]), lambda x, y: (s[x], s[y]))')
    d('noinv', 's', 'forall("int,int", lambda x, y: implies(0 <= x and x < y and y < len(s), s[x][1] <= s[y][1]), lambda x, y: (s[x], s[y]))')
    r.lemma('bal_const', params={'w': TI, 'i': 'int', 'a': 'int', 'b': 'int'}, dec='b - a', requires=['0 <= a and a <= b and b <= len(w)', 'forall("int", lambda k: implies(a <= k and k < b, w[k] != i and w[k] != i + 1))'],
            ensures=['bal(w, i, b) == bal(w, i, a)'], ih=['w, i, a, b - 1'], **C)
    PS = {'w': TI, 'i': 'int', 's': LS, 'x': 'int'}
    GL = ['gapped(w, i, s)', 'labels(w, i, s)', 'noinv(s)', '0 <= x and x < len(s)']
    r.lemma('bal_left', params=PS, dec='x', requires=GL + ['s[x][1] == i'], ensures=['forall("int", lambda t: implies(0 <= t and t <= s[x][0], bal(w, i, t) >= bal(w, i, s[x][0])))'], ih=['w, i, s, x - 1'],
            uses=['x == 0 or bal(w, i, s[x - 1][0] + 1) == bal(w, i, s[x - 1][0]) - 1'], **C)
    r.lemma('bal_right', params=PS, dec='len(s) - x', requires=GL + ['s[x][1] == i + 1'], ensures=['forall("int", lambda t: implies(s[x][0] + 1 <= t and t <= len(w), bal(w, i, t) >= bal(w, i, s[x][0] + 1)))'], ih=['w, i, s, x + 1'],
            uses=['x == len(s) - 1 or bal(w, i, s[x + 1][0] + 1) == bal(w, i, s[x + 1][0]) + 1'], **C)
    r.lemma('noadj_le', params={'s': LS, 'x': 'int', 'y': 'int'}, dec='y - x', requires=['noadj(s, len(s))', '0 <= x and x < y and y < len(s)'], ensures=['s[x][1] <= s[y][1]'], ih=['s, x, y - 1'],
            uses=['touch(s[y - 1][1])'], **C)
    loops = [Loop('while len(s) < ell', tag='w', types={'s': LS}, inv=['gapped(w, i, s)', 'labels(w, i, s)', 'len(s) < ell or noadj(s, len(s))'], dec='ell',
                  init=['forall("int", lambda k: implies(0 <= k and k < len(w) and (w[k] == i or w[k] == i + 1), 0 <= rank(s, k) and rank(s, k) < len(s) and s[rank(s, k)][0] == k), lambda k: w[k])',
                        'forall("int,int,int", lambda x, y, k: implies(0 <= x and y == x + 1 and y < len(s) and s[x][0] < k and k < s[y][0], w[k] != i and w[k] != i + 1), lambda x, y, k: (s[x], s[y], w[k]))',
                        'forall("int", lambda k: implies(0 <= k and k < len(w) and (len(s) == 0 or k < s[0][0] or k > s[len(s) - 1][0]), w[k] != i and w[k] != i + 1), lambda k: w[k])',
                        'forall("int,int", lambda a, b: bal_const(w, i, a, b), lambda a, b: (bal(w, i, a), bal(w, i, b)))'],
                  exit=['noadj(s, len(s))', 'forall("int,int", lambda x, y: noadj_le(s, x, y), lambda x, y: (s[x], s[y]))', 'noinv(s)', 'forall("int", lambda x: bal_left(w, i, s, x), lambda x: s[x])',
                        'forall("int", lambda x: bal_right(w, i, s, x), lambda x: s[x])']),
             Loop('for x in range(len(s) - 1)', tag='x', types={'s': LS}, inv=['gapped(w, i, s)', 'labels(w, i, s)', 'len(s) == ell', 'noadj(s, _i_x)'],
                  brk=['len(s) == len(s0) - 2', 'forall("int", lambda y: implies(0 <= y and y < len(s), s[y] == (s0[y] if y < x else s0[y + 2])))',
                       'bal(w, i, s0[x][0] + 1) == bal(w, i, s0[x][0]) + 1', 'bal(w, i, s0[x + 1][0] + 1) == bal(w, i, s0[x + 1][0]) - 1',
                       'level(w, i, s0[x][0], s0[x + 1][0] + 1)', 'x == 0 or x + 2 == len(s0) or level(w, i, s0[x - 1][0] + 1, s0[x + 2][0])',
                       'x == 0 or x + 2 < len(s0) or level(w, i, s0[x - 1][0] + 1, len(w))', 'x > 0 or x + 2 == len(s0) or level(w, i, 0, s0[x + 2][0])', 'x > 0 or x + 2 < len(s0) or level(w, i, 0, len(w))',
                       'gapped(w, i, s)'])]
    low = 'exists("int", lambda j: 0 <= j and j < len(%(w)s) and len(%(r)s) == len(%(w)s) and %(w)s[j] == i and %(r)s[j] == i + 1 and forall("int", lambda t: implies(0 <= t and t < len(%(w)s) and t != j, %(r)s[t] == %(w)s[t])) and ' \
          'forall("int", lambda t: implies(0 <= t and t <= len(%(w)s), bal(%(w)s, i, t) >= bal(%(w)s, i, j + 1) and (t > j or bal(%(w)s, i, t) > bal(%(w)s, i, j + 1)))))'
    high = 'exists("int", lambda j: 0 <= j and j < len(%(w)s) and len(%(r)s) == len(%(w)s) and %(w)s[j] == i + 1 and %(r)s[j] == i and forall("int", lambda t: implies(0 <= t and t < len(%(w)s) and t != j, %(r)s[t] == %(w)s[t])) and ' \
           'forall("int", lambda t: implies(0 <= t and t <= len(%(w)s), bal(%(w)s, i, t) >= bal(%(w)s, i, j) and (t <= j or bal(%(w)s, i, t) > bal(%(w)s, i, j)))))'
    d('flow', 'i,w,r', low % dict(w='w', r='r'))
    d('fhigh', 'i,w,r', high % dict(w='w', r='r'))
    d('fnone', 'i,w', 'forall("int", lambda t: implies(0 <= t and t <= len(w), bal(w, i, t) >= 0))')
    d('enone', 'i,w', 'forall("int", lambda t: implies(0 <= t and t <= len(w), bal(w, i, t) >= bal(w, i, len(w))))')
    PP = 'tuple[%s]' % TI
    r.specfn('flat', {'a': PP, 'k': 'int'}, TI, '() if k <= 0 else flat(a, k - 1) + a[k - 1]', fuel=1)
    r.lemma('flat_ext', params={'a': PP, 'b': PP, 'k': 'int'}, dec='k', requires=['0 <= k and k <= len(a) and k <= len(b)', 'forall("int", lambda x: implies(0 <= x and x < k, a[x] == b[x]))'], ensures=['flat(a, k) == flat(b, k)'],
            ih=['a, b, k - 1'], **C)
    r.lemma('flat_len', params={'a': PP, 'k': 'int', 'm': 'int'}, dec='m - k', requires=['0 <= k and k <= m and m <= len(a)'], ensures=['len(flat(a, k)) <= len(flat(a, m))'], ih=['a, k, m - 1'], **C)
    for nm, rel in (('f', 'flow'), ('e', 'fhigh')):
        src, dst, last = ('i', 'i + 1', True) if nm == 'f' else ('i + 1', 'i', False)
        aids = ['forall("int", lambda y: implies(0 <= y and y < len(_out_s_w) and _out_s_w[y][1] == %s, 0 <= rank(s, y) and rank(s, y) < len(s) and s[rank(s, y)] == _out_s_w[y]), lambda y: _out_s_w[y])' % src,
                'implies(not isnone(result), obtain("int", lambda m: 0 <= m and m < len(_out_s_w) and _out_s_w[m] == %s))' % (
                    's[len(s) - 1] and _out_s_w[m][1] == i and forall("int", lambda y: implies(m < y and y < len(_out_s_w), _out_s_w[y][1] == i + 1), lambda y: _out_s_w[y])' if last else
                    's[0] and _out_s_w[m][1] == i + 1 and forall("int", lambda y: implies(0 <= y and y < m, _out_s_w[y][1] == i), lambda y: _out_s_w[y])'),
                'touch(_out_s_w[m %s 1])' % ('+' if last else '-')]
        for var, args, out, flatin, flatout in (('word', 'tup[%s]' % TI, TI, 'args[0]', 'the(result)'), ('parts', PP, PP, 'flat(args, len(args))', 'flat(the(result), len(args))')):
            parts = var == 'parts'
            r.contract(W + nm + '_crystal_operator', variant=var, params=dict({'i': 'int', 'args': args}, **({'kwargs': '{unpack=False}'} if parts else {})), returns='opt[%s]' % out, pure=True,
                       ensures=['iff(isnone(result), %snone(i, %s))' % (nm, flatin), 'implies(not isnone(result), %s(i, %s, %s))' % (rel, flatin, flatout)] +
                               (['implies(not isnone(result), len(the(result)) == len(args) and forall("int", lambda x: implies(0 <= x and x < len(args), len(the(result)[x]) == len(args[x]))))'] if parts else []),
                       loops=([Loop('for subword in args', tag='p', types={'w': TI}, inv=['w == flat(args, _i_p)']),
                               Loop('for a in args', tag='a', types={'w': TI, 'ans': PP},
                                    inv=['len(ans) == _i_a', 'forall("int", lambda x: implies(0 <= x and x < _i_a, len(ans[x]) == len(args[x])))', 'len(flat(ans, _i_a)) == len(flat(args, _i_a))',
                                         'len(flat(ans, _i_a)) + len(w) == len(_out_w_p)',
                                         'forall("int", lambda t: implies(0 <= t and t < len(flat(ans, _i_a)), flat(ans, _i_a)[t] == (%s if t == j else _out_w_p[t])))' % dst,
                                         'forall("int", lambda t: implies(0 <= t and t < len(w), w[t] == (%s if t + len(flat(ans, _i_a)) == j else _out_w_p[t + len(flat(ans, _i_a))])))' % dst],
                                    step=['flat_len(args, _i_a + 1, len(args))'], fix=['ans'],
                                    hints=['flat_ext(ans, ans0, len(ans0))', 'same(flat(ans, len(ans0) + 1), flat(ans0, len(ans0)) + w0[:len(a)])', 'len(flat(args, len(ans0) + 1)) == len(flat(args, len(ans0))) + len(a)'])] if parts else []) + loops,
                       prove=aids, **C)
    # the two operators are mutually inverse
    r.lemma('bal_change', params={'w': TI, 'v': TI, 'i': 'int', 'j': 'int', 't': 'int'}, dec='t', ih=['w, v, i, j, t - 1'],
            requires=['0 <= t and t <= len(w) and len(v) == len(w) and 0 <= j and j < len(w) and w[j] == i and v[j] == i + 1', 'forall("int", lambda x: implies(0 <= x and x < len(w) and x != j, v[x] == w[x]))'],
            ensures=['bal(v, i, t) == bal(w, i, t) + (2 if t > j else 0)'], **C)
    FL = 'len(x) == len(w) and 0 <= j and j < len(w) and %s and forall("int", lambda t: implies(0 <= t and t < len(w) and t != j, x[t] == w[t]))'
    SAME = 'forall("int", lambda t: implies(0 <= t and t < len(w), the(y)[t] == w[t]))'
    for nm, first, second, own, other in (('lower_then_raise', 'f', 'e', 'w[j] == i and the(x)[j] == i + 1', 'the(x)[k] == i + 1 and the(y)[k] == i'),
                                          ('raise_then_lower', 'e', 'f', 'w[j] == i + 1 and the(x)[j] == i', 'the(x)[k] == i and the(y)[k] == i + 1')):
        lo, hi = ('w', 'the(x)') if first == 'f' else ('the(x)', 'w')
        fst = 'bal(w, i, t) >= bal(w, i, j + 1) and (t > j or bal(w, i, t) > bal(w, i, j + 1))' if first == 'f' else 'bal(w, i, t) >= bal(w, i, j) and (t <= j or bal(w, i, t) > bal(w, i, j))'
        snd = 'bal(the(x), i, t) >= bal(the(x), i, k) and (t <= k or bal(the(x), i, t) > bal(the(x), i, k))' if first == 'f' else 'bal(the(x), i, t) >= bal(the(x), i, k + 1) and (t > k or bal(the(x), i, t) > bal(the(x), i, k + 1))'
        r.client(nm, mod='words', params={'w': TI, 'i': 'int'},
                 code='x = Word.%s_crystal_operator(i, w)\ny = w\nif x is not None:\n    y = Word.%s_crystal_operator(i, x)' % (first, second), requires=[],
                 uses=['implies(not isnone(x), obtain("int", lambda j: 0 <= j and j < len(w) and len(the(x)) == len(w) and %s and forall("int", lambda t: implies(0 <= t and t < len(w) and t != j, the(x)[t] == w[t])) and forall("int", lambda t: implies(0 <= t and t <= len(w), %s))))' % (own, fst),
                       'implies(not isnone(x), forall("int", lambda t: bal_change(%s, %s, i, j, t), lambda t: bal(the(x), i, t)))' % (lo, hi),
                       'implies(not isnone(x), bal(the(x), i, j) == bal(the(x), i, j) and bal(the(x), i, j + 1) == bal(the(x), i, j + 1) and bal(the(x), i, len(w)) == bal(the(x), i, len(w)))',
                       'implies(not isnone(x), not isnone(y))',
                       'implies(not isnone(x), obtain("int", lambda k: 0 <= k and k < len(w) and len(the(y)) == len(w) and %s and forall("int", lambda t: implies(0 <= t and t < len(w) and t != k, the(y)[t] == the(x)[t])) and forall("int", lambda t: implies(0 <= t and t <= len(w), %s))))' % (other, snd),
                       'implies(not isnone(x), j == k)'],
                 ensures=['isnone(x) or not isnone(y) and len(the(y)) == len(w) and %s' % SAME], **C)
