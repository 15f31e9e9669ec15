import itertools
from .base import group
from .mathdefs import *


@group('C04', limit=60)
def diagrams(t):
    for mu in parts_upto(8 if not t.deep else 11):
        t.eq('Partition.shape(%r)' % (mu,), boxes(mu))
        t.eq('Partition.shifted_shape(%r)' % (mu,), shboxes(mu))
        t.eq('Partition.from_shape(%r)' % (boxes(mu),), mu)
        t.eq('Partition.from_shape(Partition.shape(%r))' % (mu,), mu)
        t.eq('Partition.from_shape(Partition.shifted_shape(%r))' % (mu,), mu)
        t.eq('Partition.from_shape(%r)' % (sorted(boxes(mu), reverse=True),), mu)
        col = tuple(sum(1 for a in mu if a >= j) for j in range(1, (mu[0] if mu else 0) + 1))
        t.eq('Partition.transpose(%r)' % (mu,), col)
        t.eq('Partition.transpose(Partition.transpose(%r))' % (mu,), mu)
        for z in range(3):
            t.eq('Partition.trim(%r)' % (mu + z * (0,),), mu)
            t.eq('Partition.trim(%r)' % (list(mu) + z * [0],), mu)
        for i in range(-2, len(mu) + 3):
            t.eq('Partition.get(%r, %r)' % (mu, i), mu[i - 1] if 1 <= i <= len(mu) else 0)
            for j in range(-2, (mu[0] if mu else 0) + 3 + len(mu)):
                t.eq('Partition.isin(%r, %d, %d)' % (mu, i, j), (i, j) in boxes(mu))
                t.eq('Partition.isin(%r, %d, %d, True)' % (mu, i, j), (i, j) in shboxes(mu))
                t.eq('Partition.isin_shifted(%r, %d, %d)' % (mu, i, j), (i, j) in shboxes(mu))


@group('C04', limit=60)
def predicates(t):
    for n in range(0, 5 if not t.deep else 7):
        for v in itertools.product(range(0, 5 if n < 5 else 3), repeat=n):
            t.eq('Partition.is_partition(%r)' % (v,), all(a >= b for a, b in zip(v, v[1:])))
            if all(v[:-1]) or not v:
                t.eq('Partition.is_strict_partition(%r)' % (v,), all(a > b for a, b in zip(v, v[1:])))
                t.eq('Partition.is_strict(%r)' % (v,), all(a > b for a, b in zip(v, v[1:])))
            t.eq('Partition.trim(%r)' % (v,), strip0(v))


@group('C04', limit=60)
def pairs(t):
    ps = parts_upto(6 if not t.deep else 8)
    for mu in ps:
        for nu in ps:
            t.eq('Partition.contains(%r, %r)' % (mu, nu), boxes(nu) <= boxes(mu))
            u = from_rows(boxes(mu) | boxes(nu))
            t.eq('Partition.union(%r, %r)' % (mu, nu), u)
            t.eq('Partition.skew(%r, %r)' % (mu, nu), boxes(mu) - boxes(nu))
            t.eq('Partition.skew(%r, %r, shifted=True)' % (mu, nu), shboxes(mu) - shboxes(nu))
            t.eq('Partition.shifted_shape(%r, %r)' % (mu, nu), shboxes(mu) - shboxes(nu))
            if is_strict(mu) and is_strict(nu):
                t.eq('Partition.merge_shifted(%r, %r)' % (mu, shboxes(nu)), u)


@group('C05', limit=60)
def corners(t):
    n = 9 if t.deep else 8
    for mu in parts_upto(n):
        for r in range(1, len(mu) + 2):
            rows = list(mu) + [0]
            rows[r - 1] += 1
            t.eq('Partition.add(%r, %d)' % (mu, r), strip0(rows))
            t.eq('Partition.add_box_to_row(%r, %d)' % (mu, r), strip0(rows))
        t.raises('Partition.add(%r, %d)' % (mu, len(mu) + 2))
        good = []
        for r in range(1, len(mu) + 1):
            rows = list(mu)
            rows[r - 1] -= 1
            legal = all(a >= b for a, b in zip(rows, rows[1:]))
            if legal:
                good.append(r)
                t.eq('Partition.remove_inner_corner(%r, %d)' % (mu, r), strip0(rows))
            else:
                t.raises('Partition.remove_inner_corner(%r, %d)' % (mu, r))
        want = sorted(strip0([a - (1 if i + 1 in s else 0) for i, a in enumerate(mu)]) for k in range(len(good) + 1) for s in itertools.combinations(good, k))
        t.eq('sorted(Partition.remove_inner_corners(%r))' % (mu,), want)
        for c in range(1, (mu[0] if mu else 0) + 2):
            col = sum(1 for a in mu if a >= c)
            if col == 0 or mu[col - 1] >= c:
                rows = list(mu) + [0]
                rows[col] += 1
                if rows[col] == c:
                    t.eq('Partition.add_box_to_column(%r, %d, False)' % (mu, c), strip0(rows))
                else:
                    t.raises('Partition.add_box_to_column(%r, %d, False)' % (mu, c))


@group('C05', limit=60)
def shifted_corners(t):
    n = 14 if t.deep else 12
    for mu in strict_upto(n):
        good = []
        for r in range(1, len(mu) + 1):
            rows = list(mu)
            rows[r - 1] -= 1
            legal = is_strict(strip0(rows))
            if legal:
                good.append(r)
                t.eq('Partition.remove_shifted_inner_corner(%r, %d)' % (mu, r), strip0(rows))
            else:
                t.eq('Partition.remove_shifted_inner_corner(%r, %d)' % (mu, r), None)
        want = sorted(strip0([a - (1 if i + 1 in s else 0) for i, a in enumerate(mu)]) for k in range(len(good) + 1) for s in itertools.combinations(good, k))
        t.eq('sorted(Partition.remove_shifted_inner_corners(%r))' % (mu,), want)
        sh = shboxes(mu)
        for d in range(0, (mu[0] if mu else 0) + 3):
            inner = [i for (i, j) in sh if j - i == d and is_shifted(sh - {(i, j)})]
            t.eq('Partition.find_shifted_inner_corner(%r, %d)' % (mu, d), inner[0] if inner else None)
            outer = [i for i in range(1, len(mu) + 2) if (i, i + d) not in sh and is_shifted(sh | {(i, i + d)})]
            t.eq('Partition.find_shifted_outer_corner(%r, %d)' % (mu, d), outer[0] if outer else None)
        for c in range(1, (mu[0] if mu else 0) + 2):
            a = [i for i, j in sh if j == c]
            box = (max(a) + 1 if a else 1, c)
            new = sh | {box}
            if box[0] <= box[1] and is_shifted(new):
                t.eq('Partition.add_box_to_column(%r, %d, True)' % (mu, c), from_rows(new))


def is_shifted(sh):
    rows = from_rows(sh)
    return shboxes(rows) == set(sh) and is_strict(rows)


@group('C06', limit=60)
def enumerate_partitions(t):
    N = 7 if not t.deep else 9
    combos = [(mp, mr, st, ev) for mp in (None, 0, 1, 2, 3, N + 1) for mr in (None, 0, 1, 2, 3, N + 1) for st in (False, True) for ev in (False, True)]
    for rnd in range(2):
        t.rng.shuffle(combos)
        for n in range(N + 1):
            for mp, mr, st, ev in combos:
                want = sorted(p for p in partitions(n) if (mp is None or n == 0 or p[0] <= mp) and (mr is None or len(p) <= mr) and (not st or is_strict(p)) and (not ev or all(a % 2 == 0 for a in p)))
                t.eq('sorted(Partition.generate(%d, max_part=%r, max_row=%r, strict=%r, even_parts=%r))' % (n, mp, mr, st, ev), want)
                if rnd:
                    t.eq('sorted(Partition.generate(%d, %r, %r, %r, %r))' % (n, mp, mr, st, ev), want)
                    w = sorted(p for k in range(n + 1) for p in partitions(k) if (mp is None or k == 0 or p[0] <= mp) and (mr is None or len(p) <= mr) and (not st or is_strict(p)) and (not ev or all(a % 2 == 0 for a in p)))
                    t.eq('sorted(Partition.all(%d, %r, %r, %r, %r))' % (n, mp, mr, st, ev), w)
    # an enumeration abandoned half way must not disturb later ones
    for n in range(1, N + 1):
        t.eq('(next(Partition.generate(%d, strict=True)), sorted(Partition.generate(%d, strict=True)), sorted(Partition.generate(%d)))[1:]' % (n, n, n),
             (sorted(p for p in partitions(n) if is_strict(p)), sorted(partitions(n))))
    for n in range(0, N + 3):
        t.eq('sorted(Partition.generate(%d))' % n, sorted(partitions(n)))


@group('C06', limit=60)
def enumerate_compositions(t):
    for n in range(0, 9 if not t.deep else 12):
        t.eq('sorted(Partition.compositions(%d))' % n, sorted(compositions(n)))
        t.eq('sorted(Partition.peak_compositions(%d))' % n, sorted(a for a in compositions(n) if all(x >= 2 for x in a[:-1])))


@group('C06', limit=60)
def enumerate_between(t):
    for st in (False, True):
        ps = strict_upto(8 if not t.deep else 10) if st else parts_upto(7 if not t.deep else 8)
        for mu in ps:
            inner = subs(mu, st)
            t.eq('sorted(Partition.subpartitions(%r, strict=%r))' % (mu, st), inner)
            for nu in inner:
                t.eq('sorted(Partition.subpartitions(%r, %r, %r))' % (mu, nu, st), [x for x in inner if contains(x, nu)])
            succ = {strip0([a + e for a, e in zip(mu, es)]) for es in itertools.product((0, 1), repeat=len(mu))}
            t.eq('sorted(Partition.successors(%r, strict=%r))' % (mu, st), sorted(x for x in succ if (is_strict(x) if st else is_part(x))))


@group('C04', limit=60)
def containment_of_words(t):
    """contains on arbitrary integer tuples: every entry of the smaller one lies between 0 and the bigger one's."""
    for n in range(0, 4):
        for m in range(0, 4):
            for a in itertools.product(range(0, 3), repeat=n):
                for b in itertools.product(range(-1, 3), repeat=m):
                    t.eq('Partition.contains(%r, %r)' % (a, b), len(b) <= len(a) and all(0 <= y <= x for x, y in zip(a, b)))
