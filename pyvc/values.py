"""Types and symbolic values of pyvc.

A value is a Python object describing a symbolic Python value.  Containers are
*closures* (length + element function, membership function, ...) so that most
container operations unfold to quantifier-free terms; `Ctx.reify` names such a
closure by a solver constant when it has to be an element of another container
or an argument of an uninterpreted symbol.
"""
import re
import z3


class Unsupported(Exception):
    """The function leaves the subset pyvc understands."""


# ------------------------------------------------------------------ types

class T:
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, tuple(a)

    def __eq__(self, o):
        return isinstance(o, T) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return self.k + ('[' + ','.join(map(repr, self.a)) + ']' if self.a else '')

    @property
    def name(self):
        k = {'tuple': 'seq', 'list': 'seq', 'hdict': 'dict'}.get(self.k, self.k)
        if self.k == 'abs':
            return self.a[0]
        if self.k == 'obj':
            return self.a[0]
        return k + ''.join('_' + x.name for x in self.a) + ('_' if self.a else '')


INT, BOOL, NONE, STR = T('int'), T('bool'), T('none'), T('str')
UNK = T('unk')


def parse_type(s):
    toks = re.findall(r'[A-Za-z_]\w*|[\[\],]', s)
    pos = [0]

    def go():
        w = toks[pos[0]]
        pos[0] += 1
        args = []
        if pos[0] < len(toks) and toks[pos[0]] == '[':
            pos[0] += 1
            while True:
                args.append(go())
                t = toks[pos[0]]
                pos[0] += 1
                if t == ']':
                    break
        if w in ('int', 'bool', 'none', 'str', 'tuple', 'list', 'set', 'dict', 'tup', 'opt', 'unk', 'fn', 'hdict', 'union'):
            return T(w, *args)
        if len(w) <= 2 and w[0].isupper():
            return T('abs', w)
        return T('obj', w)
    r = go()
    assert pos[0] == len(toks), s
    return r


# ------------------------------------------------------------------ values

class V:
    pass


class IntV(V):
    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
    ty = INT

    def lit(self):
        return self.t.as_long() if z3.is_int_value(self.t) else None


class BoolV(V):
    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t
    ty = BOOL


class NoneV(V):
    ty = NONE


class StrV(V):
    """A string: constant when s is a Python str, opaque term otherwise."""
    def __init__(self, s=None, t=None):
        self.s, self.t = s, t
    ty = STR


class TupV(V):
    """Tuple of fixed length with heterogeneous items."""
    def __init__(self, items):
        self.items = list(items)

    @property
    def ty(self):
        return T('tup', *[x.ty for x in self.items])


class SeqV(V):
    def __init__(self, kind, ety, length, at, term=None, items=None, meta=None):
        self.kind, self.ety, self.len, self._at, self.term, self.items = kind, ety, length, at, term, items
        self.meta = meta

    @property
    def ty(self):
        return T(self.kind, self.ety)

    def at(self, i):
        if self.items is not None and z3.is_int_value(i):
            k = i.as_long()
            if 0 <= k < len(self.items):
                return self.items[k]
        return self._at(i)


class SetV(V):
    def __init__(self, ety, mem, term=None):
        self.ety, self.mem, self.term = ety, mem, term

    @property
    def ty(self):
        return T('set', self.ety)


class MapV(V):
    lit = None

    def __init__(self, kty, vty, dom, val, term=None, hd=False, default=None):
        self.kty, self.vty, self.dom, self.val, self.term, self.hd, self.default = kty, vty, dom, val, term, hd, default

    @property
    def ty(self):
        return T('hdict' if self.hd else 'dict', self.kty, self.vty)


class OptV(V):
    def __init__(self, none, val):
        self.none, self.val = none, val

    @property
    def ty(self):
        return T('opt', self.val.ty)


class UnionV(V):
    """A value of one of two types: the first (when isa) or the second."""
    def __init__(self, isa, a, b, tys):
        self.isa, self.a, self.b, self.tys = isa, a, b, tys

    @property
    def ty(self):
        return T('union', *self.tys)


class DynTypeV(V):
    """type(x) of an optional or a union: [(condition, type name)]."""
    def __init__(self, alts):
        self.alts = alts
    ty = T('fn')


class ObjV(V):
    def __init__(self, cls, fields, term=None, building=False):
        self.cls, self.fields, self.term, self.building = cls, fields, term, building

    @property
    def ty(self):
        return T('obj', self.cls)


class AbsV(V):
    """Element of an abstract sort (only equality is known)."""
    def __init__(self, name, t):
        self.name, self.t = name, t

    @property
    def ty(self):
        return T('abs', self.name)


class EmptyV(V):
    """An empty container whose element type is not known yet."""
    def __init__(self, kind):
        self.kind = kind

    @property
    def ty(self):
        return T(self.kind, *([UNK, UNK] if self.kind in ('dict', 'hdict') else [UNK]))


class ClassV(V):
    def __init__(self, cls):
        self.cls = cls
    ty = T('fn')


class FuncV(V):
    """A function known by qualified name, possibly bound or closing over env."""
    def __init__(self, qual, bound=None, env=None, node=None):
        self.qual, self.bound, self.env, self.node = qual, bound, env, node
    ty = T('fn')


class SpecFnV(V):
    def __init__(self, fn):
        self.fn = fn
    ty = T('fn')


class LambdaV(V):
    def __init__(self, node, env):
        self.node, self.env = node, env
    ty = T('fn')


class ModV(V):
    def __init__(self, name):
        self.name = name
    ty = T('fn')


class TypeV(V):
    """Result of type(x), or a builtin type name."""
    def __init__(self, t):
        self.t = t
    ty = T('fn')


class IterV(V):
    """Something iterated over: indexed (len, at) or set-like (mem)."""
    def __init__(self, ety, length=None, at=None, mem=None, arr=None, kindname=''):
        self.ety, self.len, self.at, self.mem, self.arr, self.kindname = ety, length, at, mem, arr, kindname

    @property
    def ty(self):
        return T('iter', self.ety)


class StarV(V):
    """*seq as the last positional argument of a call."""
    def __init__(self, seq):
        self.seq = seq
    ty = T('fn')


class CompV(V):
    """A generator expression / comprehension, not yet materialised."""
    def __init__(self, node, env):
        self.node, self.env = node, env
    ty = T('comp')
