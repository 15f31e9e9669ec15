"""Independent definitions, written from the mathematics and not from the code."""
import itertools
from functools import lru_cache


@lru_cache(None)
def partitions(n, m=None):
    """Partitions of n with parts at most m."""
    m = n if m is None else m
    if n == 0:
        return ((),)
    return tuple((k,) + r for k in range(min(n, m), 0, -1) for r in partitions(n - k, k))


def parts_upto(n):
    return [p for k in range(n + 1) for p in partitions(k)]


def strict_upto(n):
    return [p for p in parts_upto(n) if all(a > b for a, b in zip(p, p[1:]))]


def is_part(p):
    return all(a >= b for a, b in zip(p, p[1:])) and all(a > 0 for a in p)


def is_strict(p):
    return all(a > b for a, b in zip(p, p[1:])) and all(a > 0 for a in p)


def boxes(p):
    return {(i, j) for i in range(1, len(p) + 1) for j in range(1, p[i - 1] + 1)}


def shboxes(p):
    return {(i, i + j - 1) for i in range(1, len(p) + 1) for j in range(1, p[i - 1] + 1)}


def strip0(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return tuple(p)


def from_rows(sh):
    n = max([i for i, j in sh], default=0)
    return tuple(sum(1 for b in sh if b[0] == i) for i in range(1, n + 1))


def compositions(n):
    if n == 0:
        return {()}
    out = set()
    for bits in itertools.product((0, 1), repeat=n - 1):
        c, cur = [], 1
        for b in bits:
            if b:
                c.append(cur)
                cur = 1
            else:
                cur += 1
        out.add(tuple(c + [cur]))
    return out


def subs(mu, strict=False):
    """All partitions inside mu."""
    ok = is_strict if strict else is_part
    return sorted({strip0(t) for t in itertools.product(*[range(a + 1) for a in mu]) if ok(strip0(t))})


def contains(big, small):
    return len(small) <= len(big) and all(a <= b for a, b in zip(small, big))
