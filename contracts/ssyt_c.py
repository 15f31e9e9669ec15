"""Contracts on /repo/tableaux.py: enumeration of tableaux (C11)."""
from pyvc.spec import Loop

TB = 'tableaux.Tableau.'
T = 'tuple[int]'
BOX = 'tup[int,int]'
BOXES = 'set[tup[int,int]]'
CORN = 'list[tup[int,int]]'


def register(r):
    d = r.define
    C = dict(props=['C11'])
    # the set chosen by the binary digits of v among the corners from position i on
    r.specfn('pick', {'s': BOXES, 'c': CORN, 'v': 'int', 'i': 'int'}, BOXES, 's if i < 0 or i >= len(c) else (pick(s, c, v // 2, i + 1) if v % 2 == 0 else pick(store(s, c[i]), c, v // 2, i + 1))', fuel=1)
    r.specfn('choice', {'y': BOXES, 's': BOXES, 'c': CORN, 'i': 'int'}, 'bool', 'forall("tup[int,int]", lambda b: implies(b in s, b in y)) and forall("tup[int,int]", lambda b: implies(b in y, b in s or exists("int", lambda k: i <= k and k < len(c) and c[k] == b)))', fuel=1)
    PB = {'s': BOXES, 'c': CORN, 'v': 'int', 'i': 'int'}
    r.lemma('pick_choice', params=PB, dec='len(c) - i', requires=['0 <= i and i <= len(c)'], ih=['s, c, v // 2, i + 1', 'store(s, c[i]), c, v // 2, i + 1'],
            ensures=['choice(pick(s, c, v, i), s, c, i)'], **C)
    r.lemma('pick_all', params={'y': BOXES, 's': BOXES, 'c': CORN, 'i': 'int'}, dec='len(c) - i', requires=['0 <= i and i <= len(c)', 'choice(y, s, c, i)'], ih=['y, s if c[i] not in y else store(s, c[i]), c, i + 1'],
            uses=['implies(i == len(c), seteq(y, s))', 'implies(i < len(c), choice(y, s if c[i] not in y else store(s, c[i]), c, i + 1))', 'implies(i < len(c), 2 ** (len(c) - i) == 2 * 2 ** (len(c) - (i + 1)))',
                  'implies(i < len(c), obtain("int", lambda w: 0 <= w and w < 2 ** (len(c) - (i + 1)) and pick(s if c[i] not in y else store(s, c[i]), c, w, i + 1) == y))',
                  'implies(i < len(c), pick(s, c, 2 * w + (1 if c[i] in y else 0), i) == y)'],
            ensures=['exists("int", lambda v: 0 <= v and v < 2 ** (len(c) - i) and pick(s, c, v, i) == y)'], **C)
    r.contract(TB + '_subsets', params={'diff': BOXES, 'corners': CORN, 'setvalued': 'bool'}, ytype=BOXES, ydistinct=False, yields='lambda y: y == diff if not setvalued else choice(y, diff, corners, 0)',
               uses=['forall("set[tup[int,int]]", lambda y: pick_all(y, diff, corners, 0), lambda y: choice(y, diff, corners, 0))', 'forall("int", lambda v: pick_choice(diff, corners, v, 0), lambda v: pick(diff, corners, v, 0))'],
               loops=[Loop('for v in range(2**len(corners))', tag='v', inv=['forall("set[tup[int,int]]", lambda y: iff(y in _Y, exists("int", lambda v: 0 <= v and v < _i_v and pick(diff, corners, v, 0) == y, lambda v: pick(diff, corners, v, 0))))']),
                      Loop('for i in range(len(corners))', tag='i', types={'thisdiff': BOXES}, inv=['pick(thisdiff, corners, v, _i_i) == pick(diff, corners, _i_v, 0)'])], **C)
    # a semistandard filling of mu/lam with entries 1..n, one or more distinct ones in each box
    r.specfn('fills', {'t': 'Tableau', 'mu': T, 'lam': T}, 'bool', 'forall("int,int", lambda i, j: iff((i, j) in t.boxes, i >= 1 and pget(lam, i) < j and j <= pget(mu, i)))', fuel=1)
    r.specfn('okbox', {'e': T, 'n': 'int', 'sv': 'bool'}, 'bool', 'len(e) >= 1 and (sv or len(e) == 1) and e[0] >= 1 and e[len(e) - 1] <= n and forall("int,int", lambda a, b: implies(0 <= a and a < b and b < len(e), e[a] < e[b]))', fuel=1)
    r.specfn('okboxes', {'t': 'Tableau', 'n': 'int', 'sv': 'bool'}, 'bool', 'forall("int,int", lambda i, j: implies((i, j) in t.boxes, i >= 1 and j >= 1 and okbox(t.boxes[(i, j)], n, sv)))', fuel=1)
    r.specfn('okrows', {'t': 'Tableau'}, 'bool', 'forall("int,int,int", lambda i, j, k: implies((i, j) in t.boxes and (i, k) in t.boxes and k == j + 1, t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] <= t.boxes[(i, k)][0]))', fuel=1)
    r.specfn('okcols', {'t': 'Tableau'}, 'bool', 'forall("int,int,int", lambda i, j, k: implies((i, j) in t.boxes and (k, j) in t.boxes and k == i + 1, t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] < t.boxes[(k, j)][0]))', fuel=1)
    d('ssyt', 't,n,mu,lam,sv', 'fills(t, mu, lam) and okboxes(t, n, sv) and okrows(t) and okcols(t)')
    # y with n added to the boxes of aug
    r.specfn('added', {'t': 'Tableau', 'y': 'Tableau', 'aug': BOXES, 'n': 'int'}, 'bool', 'wft(t) and forall("int,int", lambda i, j: iff((i, j) in t.boxes, (i, j) in y.boxes or (i, j) in aug) and implies((i, j) in t.boxes, '
             't.boxes[(i, j)] == (((y.boxes[(i, j)] + (n,)) if (i, j) in aug else y.boxes[(i, j)]) if (i, j) in y.boxes else (n,))))', fuel=1)
    CO = 'horizontal_strips_core(mu, lam)'
    r.lemma('corner_of', params={'core': T, 'mu': T, 'nu': T, 'diff': BOXES, 'corners': CORN, 'k': 'int'}, requires=['hentry((nu, diff, corners), core, mu)', '0 <= k and k < len(corners)'], uses=['(corners[k][0], corners[k][1]) in corners'],
            ensures=['1 <= corners[k][0] and corners[k][0] <= len(nu) and core[corners[k][0] - 1] < nu[corners[k][0] - 1] and corners[k][1] == nu[corners[k][0] - 1]'], **C)
    SP = {'n': 'int', 'mu': T, 'lam': T, 'sv': 'bool'}
    r.lemma('diff_of', params={'mu': T, 'lam': T, 'nu': T, 'diff': BOXES, 'corners': CORN, 'i': 'int', 'j': 'int'}, requires=['ispart(mu)', 'hentry((nu, diff, corners), %s, mu)' % CO, '(i, j) in diff'],
            uses=['i >= 1 and i <= len(mu)', '%s[i - 1] <= pget(nu, i)' % CO, 'pget(mu, i + 1) <= %s[i - 1]' % CO],
            ensures=['i >= 1 and i <= len(mu) and pget(nu, i) < j and j <= mu[i - 1] and pget(mu, i + 1) < j'], **C)
    PT = dict(SP, t='Tableau', y='Tableau', nu=T, diff=BOXES, corners=CORN, aug=BOXES)
    r.lemma('strip_add', params=PT, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'n > 0', 'fills(y, nu, lam)', 'okboxes(y, n - 1, sv)', 'okrows(y)', 'okcols(y)', 'hentry((nu, diff, corners), %s, mu)' % CO, 'choice(aug, diff, corners, 0) if sv else aug == diff', 'added(t, y, aug, n)'],
            uses=['forall("int", lambda k: corner_of(%s, mu, nu, diff, corners, k), lambda k: corners[k])' % CO,
                  'forall("int", lambda k: implies(0 <= k and k < len(corners), 1 <= corners[k][0] and corners[k][0] <= len(nu) and %s[corners[k][0] - 1] < nu[corners[k][0] - 1] and corners[k][1] == nu[corners[k][0] - 1]), lambda k: corners[k])' % CO,
                  'forall("int", lambda i: implies(1 <= i and i <= len(mu), pget(mu, i + 1) <= %s[i - 1] and pget(lam, i) <= %s[i - 1]), lambda i: mu[i - 1])' % (CO, CO),
                  'forall("int", lambda k: implies(0 <= k and k < len(corners), corners[k][0] >= 1 and pget(lam, corners[k][0]) < corners[k][1] and corners[k][1] == pget(nu, corners[k][0]) and pget(mu, corners[k][0] + 1) < corners[k][1]), lambda k: corners[k])',
                  'forall("int,int", lambda i, j: diff_of(mu, lam, nu, diff, corners, i, j), lambda i, j: (i, j) in diff)',
                  'forall("int,int", lambda i, j: implies((i, j) in diff, i >= 1 and i <= len(mu) and pget(nu, i) < j and j <= mu[i - 1] and pget(mu, i + 1) < j), lambda i, j: (i, j) in diff)',
                  'forall("int,int", lambda i, j: implies((i, j) in aug, (i, j) in diff or i >= 1 and pget(lam, i) < j and j == pget(nu, i) and pget(mu, i + 1) < j), lambda i, j: (i, j) in aug)',
                  'forall("int,int", lambda i, j: implies((i, j) in diff, (i, j) in aug))',
                  'forall("int,int", lambda i, j: implies((i, j) in y.boxes and (i, j) in aug, j == pget(nu, i) and pget(mu, i + 1) < j), lambda i, j: (i, j) in aug)',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes, (i, j) in y.boxes or t.boxes[(i, j)] == (n,)))', 'forall("int,int", lambda i, j: implies((i, j) in y.boxes, t.boxes[(i, j)][0] == y.boxes[(i, j)][0]))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes, t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] <= n))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i + 1, j) in t.boxes, (i, j) in y.boxes and (i, j) not in aug and t.boxes[(i, j)] == y.boxes[(i, j)]))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j + 1) in y.boxes, j < pget(nu, i) and (i, j) in y.boxes))', 'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j + 1) in y.boxes, (i, j) not in aug))', 'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j + 1) in y.boxes, (i, j) in y.boxes and (i, j) not in aug and t.boxes[(i, j)] == y.boxes[(i, j)]))'],
            ensures=['fills(t, mu, lam)', 'okboxes(t, n, sv)', 'okrows(t)', 'okcols(t)'], **C)
    # taking the entries n away: the boxes that are left, and the row lengths of the inner shape
    LAST = 't.boxes[b][len(t.boxes[b]) - 1]'
    r.specfn('lessbx', {'t': 'Tableau', 'n': 'int'}, 'dict[tup[int,int],tuple[int]]', 'mapof("tup[int,int]", "tuple[int]", lambda b: b in t.boxes and t.boxes[b][0] < n, lambda b: t.boxes[b] if %s < n else t.boxes[b][:-1])' % LAST)
    d('less', 't,n', 'obj("Tableau", lessbx(t, n))')
    r.specfn('lastsmall', {'t': 'Tableau', 'i': 'int', 'lo': 'int', 'hi': 'int', 'n': 'int'}, 'int', 'lo if hi <= lo else (hi if t.boxes[(i, hi)][0] < n else lastsmall(t, i, lo, hi - 1, n))', fuel=1)
    r.specfn('inner', {'t': 'Tableau', 'mu': T, 'lam': T, 'n': 'int'}, T, 'tuple(seqof("int", len(mu), lambda a: lastsmall(t, a + 1, pget(lam, a + 1), mu[a], n)))', fuel=1)
    r.specfn('tops', {'t': 'Tableau', 'n': 'int'}, BOXES, 'setof("tup[int,int]", lambda b: b in t.boxes and %s == n)' % LAST, fuel=1)
    PL = {'t': 'Tableau', 'i': 'int', 'lo': 'int', 'hi': 'int', 'n': 'int'}
    r.lemma('lastsmall_is', params=PL, dec='hi - lo', ih=['t, i, lo, hi - 1, n'], requires=['lo <= hi'],
            ensures=['lo <= lastsmall(t, i, lo, hi, n) and lastsmall(t, i, lo, hi, n) <= hi', 'lastsmall(t, i, lo, hi, n) == lo or t.boxes[(i, lastsmall(t, i, lo, hi, n))][0] < n',
                     'forall("int", lambda j: implies(lastsmall(t, i, lo, hi, n) < j and j <= hi, not (t.boxes[(i, j)][0] < n)), lambda j: t.boxes[(i, j)])'], **C)
    PS = {'t': 'Tableau', 'n': 'int', 'mu': T, 'lam': T, 'sv': 'bool'}
    SS = ['fills(t, mu, lam)', 'okboxes(t, n, sv)', 'okrows(t)', 'okcols(t)']
    r.lemma('row_mono', params=dict(PS, i='int', j='int', k='int'), dec='k - j', ih=['t, n, mu, lam, sv, i, j, k - 1'], requires=SS + ['i >= 1 and pget(lam, i) < j and j < k and k <= pget(mu, i)'], uses=['(i, j) in t.boxes and (i, k) in t.boxes and (i, k - 1) in t.boxes', 'okbox(t.boxes[(i, k - 1)], n, sv)', 't.boxes[(i, k - 1)][0] <= t.boxes[(i, k - 1)][len(t.boxes[(i, k - 1)]) - 1]'],
            ensures=['t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] <= t.boxes[(i, k)][0]'], **C)
    SH = ['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'n > 0', 'wft(t)'] + SS
    r.lemma('inner_row', params=dict(PS, a='int'), requires=SH + ['0 <= a and a < len(mu)'],
            uses=['pget(lam, a + 1) <= mu[a]', 'lastsmall_is(t, a + 1, pget(lam, a + 1), mu[a], n)', 'inner(t, mu, lam, n)[a] == lastsmall(t, a + 1, pget(lam, a + 1), mu[a], n)',
                  'forall("int", lambda j: implies(pget(lam, a + 1) < j and j <= inner(t, mu, lam, n)[a], (a + 1, j) in t.boxes), lambda j: t.boxes[(a + 1, j)])',
                  'forall("int", lambda j: implies(pget(lam, a + 1) < j and j < inner(t, mu, lam, n)[a], row_mono(t, n, mu, lam, sv, a + 1, j, inner(t, mu, lam, n)[a])), lambda j: t.boxes[(a + 1, j)])',
                  'forall("int", lambda j: implies(pget(lam, a + 1) < j and j < inner(t, mu, lam, n)[a], okbox(t.boxes[(a + 1, j)], n, sv)), lambda j: t.boxes[(a + 1, j)])',
                  'implies(a + 1 < len(mu) and pget(lam, a + 2) < mu[a + 1] and pget(lam, a + 1) < mu[a + 1], (a + 2, mu[a + 1]) in t.boxes and (a + 1, mu[a + 1]) in t.boxes and okbox(t.boxes[(a + 2, mu[a + 1])], n, sv) and okbox(t.boxes[(a + 1, mu[a + 1])], n, sv))',
                  'implies(a + 1 < len(mu) and pget(lam, a + 2) < mu[a + 1] and pget(lam, a + 1) < mu[a + 1], t.boxes[(a + 1, mu[a + 1])][0] < n)'],
            ensures=['horizontal_strips_core(mu, lam)[a] <= inner(t, mu, lam, n)[a] and inner(t, mu, lam, n)[a] <= mu[a]',
                     'forall("int", lambda j: implies(pget(lam, a + 1) < j and j <= inner(t, mu, lam, n)[a], t.boxes[(a + 1, j)][0] < n), lambda j: t.boxes[(a + 1, j)])',
                     'forall("int", lambda j: implies(inner(t, mu, lam, n)[a] < j and j <= mu[a], not (t.boxes[(a + 1, j)][0] < n)), lambda j: t.boxes[(a + 1, j)])'], **C)
    r.specfn('eqt', {'t': 'Tableau', 'y': 'Tableau'}, 'bool', 'forall("int,int", lambda i, j: iff((i, j) in t.boxes, (i, j) in y.boxes) and implies((i, j) in t.boxes, t.boxes[(i, j)] == y.boxes[(i, j)]))', fuel=1)
    r.lemma('in_row', params=dict(PS, i='int', j='int'), requires=SH, uses=['implies(1 <= i and i <= len(mu), inner_row(t, n, mu, lam, sv, i - 1))', 'implies((i, j) in t.boxes, okbox(t.boxes[(i, j)], n, sv))'],
            ensures=['implies((i, j) in t.boxes, 1 <= i and i <= len(mu) and pget(lam, i) < j and j <= mu[i - 1] and iff(t.boxes[(i, j)][0] < n, j <= inner(t, mu, lam, n)[i - 1]) and okbox(t.boxes[(i, j)], n, sv))',
                     'implies((i, j) in t.boxes and (i, j + 1) in t.boxes and t.boxes[(i, j + 1)][0] < n, t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] < n)',
                     'implies((i, j) in t.boxes and (i + 1, j) in t.boxes, t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1] < n and t.boxes[(i, j)][0] < n)'], **C)
    NU = ['len(nu) <= len(mu)', 'forall("int", lambda a: implies(0 <= a and a < len(mu), pget(nu, a + 1) == inner(t, mu, lam, n)[a]))']
    r.lemma('less_fill', params=dict(PS, nu=T), requires=SH + NU,
            uses=['forall("int,int", lambda i, j: in_row(t, n, mu, lam, sv, i, j), lambda i, j: (i, j) in t.boxes)', 'forall("int", lambda i: implies(1 <= i and i <= len(mu), inner_row(t, n, mu, lam, sv, i - 1)))',
                  'forall("int,int", lambda i, j: implies((i, j) in less(t, n).boxes, less(t, n).boxes[(i, j)][0] == t.boxes[(i, j)][0]))',
                  'forall("int,int", lambda i, j: implies((i, j) in less(t, n).boxes, less(t, n).boxes[(i, j)][len(less(t, n).boxes[(i, j)]) - 1] <= t.boxes[(i, j)][len(t.boxes[(i, j)]) - 1]))',
                  'forall("int,int", lambda i, j: implies((i, j) in less(t, n).boxes, okbox(less(t, n).boxes[(i, j)], n - 1, sv)))'],
            ensures=['wft(less(t, n))', 'fills(less(t, n), nu, lam)', 'okboxes(less(t, n), n - 1, sv)', 'okrows(less(t, n))', 'okcols(less(t, n))'], **C)
    r.lemma('tops_choice', params=dict(PS, nu=T, diff=BOXES, corners=CORN), requires=SH + NU + ['hentry((nu, diff, corners), %s, mu)' % CO],
            uses=['forall("int,int", lambda i, j: in_row(t, n, mu, lam, sv, i, j), lambda i, j: (i, j) in t.boxes)', 'forall("int,int", lambda i, j: diff_of(mu, lam, nu, diff, corners, i, j), lambda i, j: (i, j) in diff)',
                  'forall("int,int", lambda i, j: implies((i, j) in diff, (i, j) in tops(t, n)))', 'forall("int,int", lambda i, j: implies((i, j) in tops(t, n) and (i, j) not in diff, (i, j) in corners))', 'implies(not sv, seteq(tops(t, n), diff))'],
            ensures=['choice(tops(t, n), diff, corners, 0) if sv else tops(t, n) == diff'], **C)
    r.lemma('rebuild', params=dict(PS, y='Tableau', x='Tableau'), requires=SH + ['eqt(y, less(t, n))', 'added(x, y, tops(t, n), n)'], ensures=['eqt(x, t)'],
            uses=['forall("int,int", lambda i, j: in_row(t, n, mu, lam, sv, i, j), lambda i, j: (i, j) in t.boxes)',
                  'forall("int,int", lambda i, j: iff((i, j) in x.boxes, (i, j) in t.boxes))', 
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j) not in tops(t, n), (i, j) in y.boxes and y.boxes[(i, j)] == t.boxes[(i, j)] and x.boxes[(i, j)] == t.boxes[(i, j)]))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j) in tops(t, n) and t.boxes[(i, j)][0] < n, (i, j) in y.boxes and y.boxes[(i, j)] == t.boxes[(i, j)][:-1]))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j) in tops(t, n) and t.boxes[(i, j)][0] < n, same(t.boxes[(i, j)][:-1] + (n,), t.boxes[(i, j)])))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j) in tops(t, n) and t.boxes[(i, j)][0] < n, x.boxes[(i, j)] == t.boxes[(i, j)]))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes and (i, j) in tops(t, n) and not (t.boxes[(i, j)][0] < n), (i, j) not in y.boxes and same(t.boxes[(i, j)], (n,))))',
                  'forall("int,int", lambda i, j: implies((i, j) in t.boxes, x.boxes[(i, j)] == t.boxes[(i, j)]))'], **C)
    r.specfn('sst', {'t': 'Tableau', 'n': 'int', 'mu': T, 'lam': T, 'sv': 'bool'}, 'bool', 'wft(t) and ssyt(t, n, mu, lam, sv)', fuel=1)
    r.specfn('got', {'a': 'set[Tableau]', 't': 'Tableau'}, 'bool', 'exists("Tableau", lambda r: r in a and eqt(r, t), lambda r: (r in a, ))', fuel=1)
    r.lemma('got_more', params={'a': 'set[Tableau]', 'x': 'Tableau', 't': 'Tableau'}, requires=['got(a, t) or eqt(x, t)'], ensures=['got(store(a, x), t)'], **C)
    r.lemma('got_split', params={'a': 'set[Tableau]', 'x': 'Tableau', 't': 'Tableau'}, requires=['got(store(a, x), t)'], ensures=['got(a, t) or eqt(x, t)'], **C)
    r.lemma('box_left', params={'mu': T, 'lam': T}, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'mu != lam'], uses=['len(lam) < len(mu) or exists("int", lambda a: 0 <= a and a < len(mu) and lam[a] < mu[a]) or same(mu, lam)', 'implies(len(lam) < len(mu), mu[len(lam)] > 0)'],
            ensures=['exists("int", lambda a: 0 <= a and a < len(mu) and pget(lam, a + 1) < mu[a])'], **C)
    r.lemma('no_fill', params={'t': 'Tableau', 'mu': T, 'lam': T, 'sv': 'bool'}, requires=['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'mu != lam', 'sst(t, 0, mu, lam, sv)'],
            uses=['box_left(mu, lam)', 'obtain("int", lambda a: 0 <= a and a < len(mu) and pget(lam, a + 1) < mu[a])', '(a + 1, mu[a]) in t.boxes', 'okbox(t.boxes[(a + 1, mu[a])], 0, sv)'], ensures=['False'], **C)
    SHB = ['ispart(mu)', 'ispart(lam)', 'contained(lam, mu)', 'n > 0', 'sst(t, n, mu, lam, sv)']
    IN = 'inner(t, mu, lam, n)'
    r.lemma('inner_nu', params=PS, requires=SHB, uses=['wft(t)', 'forall("int", lambda a: inner_row(t, n, mu, lam, sv, a), lambda a: %s[a])' % IN, 'len(%s) == len(mu) and len(%s) == len(mu)' % (IN, CO), 'rows_between(%s, mu, %s)' % (CO, IN), 'trim1_of(%s, mu, %s)' % (CO, IN)],
            ensures=['rows_between(%s, mu, %s)' % (CO, IN), 'len(trim1(%s)) <= len(mu)' % IN, 'forall("int", lambda a: implies(0 <= a and a < len(mu), pget(trim1(%s), a + 1) == %s[a]))' % (IN, IN)], **C)
    r.lemma('step_less', params=dict(PS, nu=T), requires=SHB + ['nu == trim1(%s)' % IN], uses=['inner_nu(t, n, mu, lam, sv)', 'less_fill(t, n, mu, lam, sv, nu)'], ensures=['sst(less(t, n), n - 1, nu, lam, sv)'], **C)
    r.lemma('step_tops', params=dict(PS, nu=T, diff=BOXES, corners=CORN), requires=SHB + ['nu == trim1(%s)' % IN, 'hentry((nu, diff, corners), %s, mu)' % CO], uses=['inner_nu(t, n, mu, lam, sv)', 'tops_choice(t, n, mu, lam, sv, nu, diff, corners)'],
            ensures=['choice(tops(t, n), diff, corners, 0) if sv else tops(t, n) == diff'], **C)
    r.lemma('step_back', params=dict(PS, y='Tableau', x='Tableau'), requires=SHB + ['eqt(y, less(t, n))', 'added(x, y, tops(t, n), n)'], ensures=['eqt(x, t)'], uses=['rebuild(t, n, mu, lam, sv, y, x)'], **C)
    r.lemma('sorted_snoc', params={'e': T, 'n': 'int'}, requires=['ndec(e)', 'len(e) == 0 or e[len(e) - 1] <= n'], uses=['ndec(e + (n,))'], ensures=['tuple(sorted(e + (n,))) == e + (n,)'], **C)
    IM = 'inner(t, mu, lam, max_entry)'
    SOUND = 'forall("Tableau", lambda t: implies(t in ans, sst(t, max_entry, mu, lam, setvalued)), lambda t: (t in ans, ))'

    def comp(seen):
        return 'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and (%s), got(ans, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))' % seen
    SEEN = 'exists("int", lambda k: 0 <= k and k < _i_s and _s_s[k][0] == trim1(%s), lambda k: _s_s[k])' % IM
    AUG = 'nu == trim1(%s) and tops(t, max_entry) in _vis_a' % IM
    r.specfn('stepof', {'t': 'Tableau', 'n': 'int', 'mu': T, 'lam': T, 'nu': T, 'aug': BOXES}, 'bool', 'nu == trim1(inner(t, mu, lam, n)) and tops(t, n) == aug', fuel=1)
    TAB = 'stepof(t, max_entry, mu, lam, nu, aug) and got(_vis_t, less(t, max_entry))'
    TY = {'ans': 'set[Tableau]'}
    r.contract(TB + '_semistandard', params={'max_entry': 'int', 'mu': T, 'lam': T, 'setvalued': 'bool'}, returns='set[Tableau]', requires=['ispart(mu)', 'ispart(lam)', 'max_entry >= 0'], dec='max_entry',
               locals=TY, prove=['forall("Tableau", lambda t: implies(max_entry == 0, no_fill(t, mu, lam, setvalued)), lambda t: sst(t, max_entry, mu, lam, setvalued))'],
               ensures=[SOUND.replace('ans', 'result'), 'implies(contained(lam, mu), %s)' % comp('True').replace('ans', 'result')],
               loops=[Loop('for nu, diff, corners in cls._horizontal_strips(mu, lam)', tag='s', types=TY, step=['hentry_part(mu, lam, nu)', 'contained(lam, nu)'], inv=[SOUND, comp(SEEN)],
                           exit=['forall("Tableau", lambda t: inner_nu(t, max_entry, mu, lam, setvalued), lambda t: sst(t, max_entry, mu, lam, setvalued))', 'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued), %s), lambda t: sst(t, max_entry, mu, lam, setvalued))' % SEEN]),
                      Loop('for aug in cls._subsets(diff, corners, setvalued)', tag='a', types=TY, inv=[SOUND, comp(SEEN + ' or ' + AUG)],
                           exit=['forall("Tableau", lambda t: step_tops(t, max_entry, mu, lam, setvalued, nu, diff, corners), lambda t: sst(t, max_entry, mu, lam, setvalued))',
                                 'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and nu == trim1(%s), tops(t, max_entry) in _vis_a), lambda t: sst(t, max_entry, mu, lam, setvalued))' % IM]),
                      Loop('for tab in cls._semistandard(max_entry - 1, nu, lam, setvalued)', tag='t', types=TY, fix=['ans'], inv=[SOUND, comp(SEEN + ' or ' + AUG + ' or ' + TAB)],
                           hints=['strip_add(max_entry, mu, lam, setvalued, tab, _x_t, nu, diff, corners, aug)', 'sst(tab, max_entry, mu, lam, setvalued)', 'seteq(ans, store(ans0, tab))',
                                  'seteq(_vis_t, store(_vis_t0, _x_t))', 'forall("Tableau", lambda t: got_split(_vis_t0, _x_t, less(t, max_entry)), lambda t: sst(t, max_entry, mu, lam, setvalued))', 'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued), got_more(ans0, tab, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))',
                                  'forall("Tableau", lambda t: implies(tops(t, max_entry) == aug, step_back(t, max_entry, mu, lam, setvalued, _x_t, tab)), lambda t: sst(t, max_entry, mu, lam, setvalued))',
                                  'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and got(_vis_t, less(t, max_entry)), got(_vis_t0, less(t, max_entry)) or eqt(_x_t, less(t, max_entry))), lambda t: sst(t, max_entry, mu, lam, setvalued))',
                                  'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and %s and got(_vis_t0, less(t, max_entry)), got(ans0, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))' % TAB,
                                  'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and %s and eqt(_x_t, less(t, max_entry)), eqt(tab, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))' % TAB,
                                  'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and %s, got(ans0, t) or eqt(tab, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))' % TAB,
                                  'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and (got(ans0, t) or eqt(tab, t)), got(ans, t)), lambda t: sst(t, max_entry, mu, lam, setvalued))'],
                           exit=['forall("Tableau", lambda t: step_less(t, max_entry, mu, lam, setvalued, nu), lambda t: sst(t, max_entry, mu, lam, setvalued))',
                                 'forall("Tableau", lambda t: implies(sst(t, max_entry, mu, lam, setvalued) and nu == trim1(%s), got(_vis_t, less(t, max_entry))), lambda t: sst(t, max_entry, mu, lam, setvalued))' % IM]),
                      Loop('for (i, j) in aug', tag='b', types={'tab': 'Tableau'}, inv=['added(tab, _x_t, _vis_b, max_entry)'],
                           hints=['iff((i, j) in tab0.boxes, (i, j) in _x_t.boxes)', 'implies((i, j) in tab0.boxes, tab0.boxes[(i, j)] == _x_t.boxes[(i, j)] and okbox(tab0.boxes[(i, j)], max_entry - 1, setvalued))', 'implies((i, j) in tab0.boxes, sorted_snoc(tab0.boxes[(i, j)], max_entry))', 'implies((i, j) in tab0.boxes, tuple(sorted(tab0.boxes[(i, j)] + (max_entry,))) == tab0.boxes[(i, j)] + (max_entry,))',
                                  'same(tab.boxes[(i, j)], (_x_t.boxes[(i, j)] + (max_entry,)) if (i, j) in _x_t.boxes else (max_entry,))', 'forall("int,int", lambda a, b: iff((a, b) in _vis_b, (a, b) in _vis_b0 or (a == i and b == j)))',
                                  'forall("int,int", lambda a, b: iff((a, b) in tab.boxes, (a, b) in _x_t.boxes or (a, b) in _vis_b))',
                                  'forall("int,int", lambda a, b: implies((a, b) in tab.boxes and not (a == i and b == j), tab.boxes[(a, b)] == tab0.boxes[(a, b)]))',
                                  'forall("int,int", lambda a, b: implies((a, b) in tab.boxes and (a, b) not in _vis_b, tab.boxes[(a, b)] == _x_t.boxes[(a, b)]))',
                                  'forall("int,int", lambda a, b: implies((a, b) in _vis_b and (a, b) not in _x_t.boxes, tab.boxes[(a, b)] == (max_entry,)))',
                                  'forall("int,int", lambda a, b: implies((a, b) in _vis_b and (a, b) in _x_t.boxes, tab.boxes[(a, b)] == _x_t.boxes[(a, b)] + (max_entry,)))'])], **C)
    # the public entry points
    PUB = {'max_entry': 'int', 'mu': T, 'nu': T}
    REQ = ['ispart(mu)', 'ispart(nu)', 'max_entry >= 0']

    def both(sv):
        return [s.replace('lam', 'nu').replace('nubda', 'lambda').replace('setvalued', sv) for s in (SOUND.replace('ans', 'result'), 'implies(contained(lam, mu), %s)' % comp('True').replace('ans', 'result'))]
    r.contract(TB + 'semistandard', params=dict(PUB, setvalued='bool'), returns='set[Tableau]', fresh=False, requires=REQ, ensures=both('setvalued'), **C)
    r.contract(TB + 'semistandard_setvalued', params=PUB, returns='set[Tableau]', fresh=False, requires=REQ, ensures=both('True'), **C)
