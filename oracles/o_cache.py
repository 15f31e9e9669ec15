"""Histories: every answer is compared with the answer the same expression gives in a process
that has computed nothing else (the expected value), after random sequences of other calls."""
import os
import pickle
import random
from .base import group

SHAPES = ['()', '(1,)', '(2,)', '(2, 1)', '(3, 1)', '(3, 2)', '(2, 2)', '(1, 1)', '(3, 2, 1)', '(3,)']
STRICT = ['()', '(1,)', '(2,)', '(2, 1)', '(3, 1)', '(3, 2)', '(3,)', '(3, 2, 1)']


def tableau_probes():
    out = []
    for f in ('_horizontal_strips', '_rpp_horizontal_strips', '_vertical_strips', '_rpp_vertical_strips'):
        for mu in SHAPES:
            for nu in ('()', '(1,)'):
                out.append('Tableau.%s(%s, %s)' % (f, mu, nu))
    for f in ('_shifted_horizontal_strips', '_shifted_vertical_strips', '_shifted_rpp_horizontal_strips', '_shifted_rpp_vertical_strips'):
        for mu in STRICT:
            for nu in ('()', '(1,)'):
                out.append('Tableau.%s(%s, %s)' % (f, mu, nu))
    for n in (1, 2, 3):
        for mu in SHAPES[:8]:
            for nu in ('()', '(1,)'):
                for sv in ('False', 'True'):
                    out.append('Tableau.semistandard(%d, %s, %s, %s)' % (n, mu, nu, sv))
                    out.append('Tableau.count_semistandard(%d, %s, %s, %s)' % (n, mu, nu, sv))
                    out.append('Tableau.semistandard_marked(%d, %s, %s, %s)' % (min(n, 2), mu, nu, sv))
                    out.append('Tableau.count_semistandard_marked(%d, %s, %s, %s)' % (min(n, 2), mu, nu, sv))
                out.append('Tableau.semistandard_rpp(%d, %s, %s)' % (n, mu, nu))
                out.append('Tableau.count_semistandard_rpp(%d, %s, %s)' % (n, mu, nu))
        for mu in STRICT[:7]:
            for nu in ('()', '(1,)'):
                for dp in ('False', 'True'):
                    for sv in ('False', 'True'):
                        out.append('Tableau.semistandard_shifted_marked(%d, %s, %s, %s, %s)' % (min(n, 2), mu, nu, dp, sv))
                        out.append('Tableau.count_semistandard_shifted_marked(%d, %s, %s, %s, %s)' % (n, mu, nu, dp, sv))
                    out.append('Tableau.semistandard_marked_rpp(%d, %s, %s, %s)' % (min(n, 2), mu, nu, dp))
                    out.append('Tableau.count_semistandard_marked_rpp(%d, %s, %s, %s)' % (n, mu, nu, dp))
    return out


def partition_probes():
    out = []
    for mu in STRICT:
        for nu in ('()', '(1,)', '(2,)'):
            out.append('Partition.rims(%s, %s)' % (mu, 'len(%s) + 1' % mu))
            out.append('Partition.decompose_shifted_shape_by_rims(%s)' % mu)
            out.append('Partition.decompose_shifted_shape_by_vertical_strips(%s)' % mu)
    for n in range(6):
        for st in ('False', 'True'):
            for ev in ('False', 'True'):
                out.append('sorted(Partition.all(%d, strict=%s, even_parts=%s))' % (n, st, ev))
                out.append('sorted(Partition.generate(%d, strict=%s, even_parts=%s))' % (n, st, ev))
                out.append('sorted(Partition.generate(%d, max_part=2, strict=%s, even_parts=%s))' % (n, st, ev))
                out.append('sorted(Partition.generate(%d, max_row=2, strict=%s, even_parts=%s))' % (n, st, ev))
        out.append('sorted(Partition.compositions(%d))' % n)
    for mu in SHAPES:
        out.append('sorted(Partition.subpartitions(%s))' % mu)
        out.append('Partition.transpose(%s)' % mu)
    return out


def symmetric_probes():
    out = []
    S = 'SymmetricPolynomial.'
    for f in ('schur', 'stable_grothendieck', 'dual_stable_grothendieck', 'schur_s', 'stable_grothendieck_s'):
        for mu in SHAPES[:6]:
            for n in (2, 3):
                out.append(S + '%s(%d, %s)' % (f, n, mu))
    out += [S + 'stable_grothendieck(2, (2, 1), (), degree_bound=%d)' % d for d in (3, 4)]
    for f in ('schur_p', 'schur_q', 'stable_grothendieck_p', 'stable_grothendieck_q', 'dual_stable_grothendieck_p', 'dual_stable_grothendieck_q'):
        for mu in STRICT[:5]:
            for n in (2, 3):
                out.append(S + '%s(%d, %s)' % (f, n, mu))
    for a in ('(1,)', '(2, 1)', '(1, 1)', '(2,)'):
        for b in ('(1,)', '(2, 1)', '()'):
            out.append(S + 'monomial(3, %s) * %smonomial(3, %s)' % (a, S, b))
            out.append(S + 'schur(3, %s) * %sschur(3, %s)' % (a, S, b))
            out.append(S + 'schur(3, %s) + 2 * %sschur(3, %s)' % (a, S, b))
            out.append('SymmetricMonomial._multiply(SymmetricMonomial(3, %s), SymmetricMonomial(3, %s))' % (a, b))
    for mu in ('(1,)', '(2,)', '(2, 1)', '(1, 1)'):
        out.append(S + 'schur_expansion(%sschur(3, %s))' % (S, mu))
        out.append(S + 'grothendieck_expansion(%sstable_grothendieck(3, %s))' % (S, mu))
        out.append(S + 'schur_expansion(%sstable_grothendieck(3, %s))' % (S, mu))
        out.append(S + 'dual_grothendieck_expansion(%sdual_stable_grothendieck(3, %s))' % (S, mu))
        out.append(S + 'dual_stable_grothendieck(3, %s).omega_schur_expansion(%sschur_expansion(%sdual_stable_grothendieck(3, %s)))' % (mu, S, S, mu) if False else S + 'schur_expansion(%sdual_stable_grothendieck(3, %s))' % (S, mu))
    for mu in ('(1,)', '(2,)', '(2, 1)'):
        for f in ('GP_expansion(%sstable_grothendieck_p(2, %s))', 'GQ_expansion(%sstable_grothendieck_q(2, %s))', 'gp_expansion(%sdual_stable_grothendieck_p(2, %s))',
                  'gq_expansion(%sdual_stable_grothendieck_q(2, %s))', 'P_expansion(%sschur_p(2, %s))', 'Q_expansion(%sschur_q(2, %s))'):
            out.append(S + f % (S, mu))
        out.append(S + 'slow_transposed_dual_stable_grothendieck(2, %s)' % mu)
        out.append(S + 'slow_transposed_dual_stable_grothendieck_p(2, %s)' % mu)
    # uses of a value that must leave it (and its memo entry) alone
    for mu in ('(2, 1)', '(1,)'):
        out.append('[str(x) for f in [%sschur(3, %s)] for x in (f + f, f - f, f * 3, -f, f * f, f.truncate(2), f.polynomial(), f.lowest_degree_terms(), f.highest_degree_terms(), f)]' % (S, mu))
    return out


def permutation_probes():
    out = []
    ws = ['()', '(2, 1)', '(2, 1, 3)', '(3, 2, 1)', '(2, 3, 1)', '(3, 1, 2)', '(1, 3, 2)', '(2, 1, 4, 3)', '(4, 3, 2, 1)', '(1, 4, 3, 2)']
    for w in ws:
        for lb in (1, 2, 3, 4):
            out.append('sorted(Permutation(*%s).get_hecke_words(%d))' % (w, lb))
            out.append('sorted(Permutation(*%s).get_involution_hecke_words(%d))' % (w, min(lb, 3)))
        out.append('sorted(Permutation(*%s).get_reduced_words())' % w)
        out.append('len(Permutation(*%s))' % w)
        out.append('sorted(w.oneline for w in Permutation(*%s).get_atoms()) if Permutation(*%s).is_involution() else None' % (w, w))
    for w in ('(2, 1, 4, 3)', '(4, 3, 2, 1)', '(3, 4, 1, 2)'):
        for lb in (1, 2, 3):
            out.append('sorted(Permutation(*%s).get_symplectic_hecke_words(%d))' % (w, lb))
        out.append('sorted(w.oneline for w in Permutation(*%s).get_fpf_atoms())' % w)
    for n in (2, 3, 4):
        for lb in (0, 1, 2, 3):
            out.append('sorted(Permutation.hecke_words(%d, %d))' % (n, lb))
            out.append('sorted(Permutation.hecke_words(%d, %d, 2))' % (n, lb))
            out.append('sorted(Permutation.involution_hecke_words(%d, %d))' % (n, lb))
            out.append('sorted(Permutation.involution_hecke_words(%d, %d, 1))' % (n, lb))
            if n % 2 == 0:
                out.append('sorted(Permutation.symplectic_hecke_words(%d, %d))' % (n, lb))
                out.append('sorted(Permutation.symplectic_hecke_words(%d, %d, None, False))' % (n, lb))
        out.append('[sorted(x) for x in Permutation.hecke_levels(%d, 3)]' % n)
    for w in ('(-1,)', '(-1, -2)', '(-2, -1)', '(1, -2)'):
        out.append('sorted(w.oneline for w in Permutation(*%s).get_atoms())' % w)
        out.append('sorted(Permutation(*%s).get_involution_words())' % w)
    return out


def insertion_probes():
    out = []
    for w in ('(1,)', '(1, 2)', '(2, 1)', '(1, 1)', '(1, 2, 1)', '(2, 1, 2)', '(3, 1, 2)', '(1, 3, 2, 1)', '(2, 2, 1)'):
        for m in ('hecke', 'orthogonal_hecke'):
            out.append('InsertionAlgorithm.%s(%s)' % (m, w))
        out.append('InsertionAlgorithm.inverse_hecke(*InsertionAlgorithm.hecke(%s))' % w)
        out.append('HState.insertion_tableaux(*%s)' % w)
    for w in ('(2,)', '(2, 3)', '(2, 1)', '(4, 2, 3)', '(2, 3, 4)'):
        out.append('InsertionAlgorithm.symplectic_hecke(%s)' % w)
        out.append('FState.insertion_tableaux(*%s)' % w)
    return out


def abandons():
    """Enumerations started and left, or interleaved with the next expressions."""
    out = []
    for n in (2, 3, 4):
        for k in range(1, 5):
            out.append('G%d = Permutation.hecke_levels(%d); [next(G%d, None) for _ in range(%d)]' % (k, n, k, k))
            out.append('J%d = Permutation.involution_hecke_levels(%d); [next(J%d, None) for _ in range(%d)]' % (k, n, k, min(k, 3)))
            out.append('I%d = Permutation.hecke_words(%d); [next(I%d, None) for _ in range(%d)]' % (k, n, k, k))
            if n % 2 == 0:
                out.append('K%d = Permutation.symplectic_hecke_levels(%d); [next(K%d, None) for _ in range(%d)]' % (k, n, k, min(k, 3)))
            out.append('next(G%d, None) if "G%d" in globals() else None' % (k, k))
            out.append('next(J%d, None) if "J%d" in globals() else None' % (k, k))
    for mu in ('(2, 1)', '(3, 2, 1)'):
        out.append('next(iter(Partition.subpartitions(%s)))' % mu)
        out.append('next(iter(Tableau.semistandard(2, %s, (), True)), None)' % mu)
    out.append('next(iter(Partition.generate(5, strict=False, even_parts=False)), None)')
    return out


def plain(v, depth=0):
    """Data that determines the value and does not depend on the order of sets or dictionaries."""
    n = type(v).__name__
    if v is None or isinstance(v, (int, str, bool)):
        return v
    if n == 'Tableau':
        return ('Tableau', tuple(sorted((k, tuple(x)) for k, x in v.boxes.items())))
    if n == 'Permutation':
        return ('Permutation', tuple(v.oneline))
    if n == 'Polynomial':
        return ('Polynomial', tuple(sorted((tuple(sorted(k.items())), c) for k, c in v.coeffs.items())))
    if n == 'SymmetricMonomial':
        return ('SymmetricMonomial', v.n, tuple(v.mu))
    if hasattr(v, 'dictionary'):
        return (n, tuple(sorted(((plain(k), plain(c)) for k, c in v.dictionary.items()), key=repr)))
    if isinstance(v, dict):
        return ('dict', tuple(sorted(((plain(k), plain(c)) for k, c in v.items()), key=repr)))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted((plain(x) for x in v), key=repr)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(plain(x) for x in v))
    if hasattr(v, '__next__'):
        return ('iter', tuple(sorted((plain(x) for x in v), key=repr)))
    return ('repr', repr(v))


def fresh(t, exprs):
    """Values of the expressions, each computed in a process of its own."""
    out = {}
    for e in exprs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                v = ('ok', plain(eval(e, t.ns)))
            except BaseException as x:
                v = ('err', type(x).__name__)
            with os.fdopen(w, 'wb') as h:
                h.write(pickle.dumps(v))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as h:
            out[e] = pickle.loads(h.read())
        os.waitpid(pid, 0)
    return out


def history(t, probes, extra, runs, length):
    from . import o_cache
    t.ns['plain'] = o_cache.plain
    probes = list(probes)
    if not t.deep and len(probes) > 160:
        probes = t.rng.sample(probes, 160)
    want = fresh(t, probes)
    probes = [e for e in probes if want[e][0] == 'ok']
    assert len(probes) > 10
    for run in range(runs):
        hist = ['from oracles.o_cache import plain']
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 60)
            bad, n = None, 0
            try:
                order = list(probes)
                t.rng.shuffle(order)
                for e in order[:length] + [t.rng.choice(order) for _ in range(length // 2)]:
                    if extra and t.rng.random() < .6:
                        x = t.rng.choice(extra)
                        hist.append(x)
                        try:
                            exec(x, t.ns)
                        except Exception as ex:
                            bad = (hist, 'None', 'normal completion', repr(ex), None)
                            break
                    try:
                        got = ('ok', plain(eval(e, t.ns)))
                    except Exception as ex:
                        got = ('err', type(ex).__name__ + ': ' + str(ex))
                    n += 1
                    if got != want[e]:
                        bad = (hist, 'plain(%s)' % e, repr(want[e][1])[:4000], repr(got[1])[:4000], repr(want[e][1]) if len(repr(want[e][1])) < 20000 else None)
                        break
                    hist.append('plain(%s)' % e)
            except BaseException as ex:
                bad = (hist, 'None', 'normal completion', repr(ex), None)
            with os.fdopen(w, 'wb') as h:
                h.write(pickle.dumps((n, bad)))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as h:
            n, bad = pickle.loads(h.read())
        os.waitpid(pid, 0)
        t.rng = random.Random(t.seed * 1000 + run)
        for _ in range(n):
            t.n += 1
        t.samples[:] = probes[:3]
        if bad:
            from .base import Found
            hist, e, wv, gv, lit = bad
            hist = shrink(t, hist, e, lit)
            raise Found(('\n'.join(hist), e, wv, gv, lit))


def check_in_child(t, hist, e, lit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 30)
        v = b'1'
        try:
            for h in hist:
                exec(h, t.ns)
            v = b'0' if eval(e, t.ns) == eval(lit) else b'1'
        except BaseException:
            pass
        with os.fdopen(w, 'wb') as h:
            h.write(v)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        out = h.read()
    os.waitpid(pid, 0)
    return out != b'0'


def shrink(t, hist, e, lit):
    if lit is None:
        return hist
    import time
    t0 = time.time()
    k = len(hist) // 2
    while k >= 1 and time.time() - t0 < 15:
        i = 0
        while i < len(hist) and time.time() - t0 < 15:
            h = hist[:i] + hist[i + k:]
            if hist[i].startswith('from oracles') or not check_in_child(t, h, e, lit):
                i += k
            else:
                hist = h
        k //= 2
    return hist


@group('C17', limit=100)
def tableaux_(t):
    history(t, tableau_probes(), [], 4 if not t.deep else 12, 150)


@group('C17', limit=100)
def partitions_(t):
    history(t, partition_probes(), abandons(), 4 if not t.deep else 12, 150)


@group('C17', limit=100)
def symmetric_(t):
    history(t, symmetric_probes(), [], 3 if not t.deep else 12, 120)


@group('C17', limit=100)
def permutations_(t):
    history(t, permutation_probes(), abandons(), 6 if not t.deep else 30, 120)


@group('C17', limit=100)
def insertion_(t):
    history(t, insertion_probes(), [], 4, 60)


@group('C17', limit=100)
def mixed(t):
    history(t, permutation_probes()[:60] + symmetric_probes()[:40] + t.rng.sample(tableau_probes(), 80) + partition_probes()[:40], abandons(), 3 if not t.deep else 12, 200)


@group('C17', limit=40)
def memo(t):
    """cached_value itself: one computation per distinct argument tuple, separate tables."""
    t.do('''from cached import cached_value
LOG = []
A, B = {}, {}
class Probe:
    @cached_value(A)
    def f(cls, *args):
        LOG.append(('f',) + args)
        return ('f', cls.__name__) + args
    @cached_value(B)
    def g(cls, *args):
        LOG.append(('g',) + args)
        return [args]
''')
    for args in ('', '1', '2', '1, 2', '(1, 2)', '(1,), 2', '2, (1,)', '()', '(), ()', 'None', '"a"', '1, None'):
        t.eq('Probe.f(%s)' % args, eval("('f', 'Probe') + (%s)" % (args + ',' if args else '')))
        t.eq('Probe.g(%s)' % args, eval('[(%s)]' % (args + ',' if args else '')))
    for args in ('1, 2', '2', '', '(), ()', '1, None'):
        t.eq('Probe.f(%s)' % args, eval("('f', 'Probe') + (%s)" % (args + ',' if args else '')))
        t.true('Probe.g(%s) is Probe.g(%s)' % (args, args))
    t.true('len(LOG) == len(set(LOG))')


CACHES = ['tableaux', 'symmetric', 'partitions', 'permutations', 'insertion']


@group('C17', limit=100)
def stored_values(t):
    """What a memo table holds does not change once stored."""
    from . import o_cache
    t.ns['plain'] = o_cache.plain
    probes = [p for p in tableau_probes() + symmetric_probes() + partition_probes() + permutation_probes() + insertion_probes()]
    order = t.rng.sample(probes, 220 if not t.deep else 700)

    def snap():
        out = {}
        for m in CACHES:
            for name, d in vars(t.ns[m]).items():
                if isinstance(d, dict) and 'cache' in name.lower() and not name.startswith('HECKE_CACHE') and 'HECKE' not in name:
                    for k, v in d.items():
                        if not hasattr(v, '__next__'):
                            out[m, name, repr(plain(k))] = plain(v)
        return out
    seen = {}
    for i, e in enumerate(order):
        try:
            eval(e, t.ns)
        except Exception:
            continue
        t.note(e)
        if i % 20 == 19 or i == len(order) - 1:
            now = snap()
            for k, v in seen.items():
                if k in now and now[k] != v:
                    t.fail('None', v, ('memo entry %s.%s[%s] became' % k, now[k]))
            seen = now
