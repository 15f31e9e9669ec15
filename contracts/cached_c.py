"""Contracts on /repo/cached.py: the memo decorator (C17)."""


def register(r):
    r.owner.add('C17')
    # cache holds only values of f, at the full argument tuple; after any call it still does, and the answer is f's answer
    r.contract('cached.cached_value.wrap.wrapped_f', params={'args': 'tuple[A]'}, captures={'cache': 'dict[tuple[A],B]', 'f': 'fn(tuple[A] -> B)'}, returns='B', modifies=['cache'],
               requires=['forall("tuple[A]", lambda k: implies(k in cache, cache[k] == f(k)))'],
               ensures=['result == f(args)', 'forall("tuple[A]", lambda k: implies(k in new_cache, new_cache[k] == f(k)))',
                        'forall("tuple[A]", lambda k: implies(k in cache, k in new_cache))'], props=['C17'])
