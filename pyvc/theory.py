"""Solver-side theory: sorts, reification, equality, merging."""
import z3
from .values import *

I = z3.IntSort()
B = z3.BoolSort()


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def neg(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def add(a, b):
    if z3.is_int_value(b):
        if b.as_long() == 0:
            return a
        if z3.is_int_value(a):
            return z3.IntVal(a.as_long() + b.as_long())
        # (x + c) + d
        if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
            return add(a.arg(0), z3.IntVal(a.arg(1).as_long() + b.as_long()))
        if b.as_long() < 0 and False:
            return a - z3.IntVal(-b.as_long())
    if z3.is_int_value(a):
        return add(b, a)
    if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(add(a.arg(0), b), a.arg(1))
    if z3.is_add(b) and b.num_args() == 2 and z3.is_int_value(b.arg(1)):
        return add(add(a, b.arg(0)), b.arg(1))
    return a + b


def negi(a):
    if z3.is_int_value(a):
        return z3.IntVal(-a.as_long())
    if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(negi(a.arg(0)), z3.IntVal(-a.arg(1).as_long()))
    return -a


def sub(a, b):
    if a.eq(b):
        return z3.IntVal(0)
    if z3.is_int_value(b):
        return add(a, z3.IntVal(-b.as_long()))
    # (x + c) - x
    if z3.is_add(a) and a.num_args() == 2 and a.arg(0).eq(b):
        return a.arg(1)
    if z3.is_add(a) and a.num_args() == 2 and a.arg(1).eq(b):
        return a.arg(0)
    if z3.is_add(b) and b.num_args() == 2 and z3.is_int_value(b.arg(1)):
        return add(sub(a, b.arg(0)), z3.IntVal(-b.arg(1).as_long()))
    if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(sub(a.arg(0), b), a.arg(1))
    return a - b


def has_ite(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if x.sort() == B or z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        stack.extend(x.children())
    return False


def free_consts(t, names, seen=None):
    """Subset of `names` (dict id->const) occurring in t."""
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in names:
            out[x.get_id()] = names[x.get_id()]
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out


class Theory:
    """Sorts and facts shared by the obligations of one verification unit."""

    def __init__(self, classes=None):
        self.sorts = {}
        self.fns = {}
        self.facts = []           # (set of symbol names it defines | None, formula)
        self.counter = 0
        self.binders = []         # open bound constants (innermost last)
        self.memo = {}
        self.classes = classes or {}   # object models: cls -> {field: type}
        self.axioms_on = set()
        self.strconsts = {}
        self.keep = []

    # -------------------------------------------------------------- naming
    def fresh(self, sort, hint='c'):
        self.counter += 1
        return z3.Const('%s!%d' % (hint, self.counter), sort)

    def freshfn(self, dom, rng, hint='f'):
        self.counter += 1
        return z3.Function('%s!%d' % (hint, self.counter), *dom, rng)

    def ext_facts(self):
        """Extensionality for every sequence/map term (sound for all values; kept apart because it is expensive)."""
        out = []
        for key, (f1, f2, rel, _) in self.fns.items():
            a = z3.Const('a!', rel.domain(0))
            out.append(({rel.name()}, z3.ForAll([a], rel(a), patterns=[f1(a)])))
        return out

    class AllOf(frozenset):
        """relevant only when all of the symbols occur"""

    on_filter = None

    def fact(self, f, defines=None):
        self.facts.append((defines, f))

    # -------------------------------------------------------------- sorts
    def sort(self, ty):
        k = ty.k
        if k == 'int':
            return I
        if k == 'bool':
            return B
        key = ty.name
        if key in self.sorts:
            return self.sorts[key]
        if k in ('tuple', 'list'):
            e = ty.a[0]
            es = self.sort(e)
            s = z3.DeclareSort('S_' + key)
            self.sorts[key] = s
            ln = z3.Function('len_' + key, s, I)
            at = z3.Function('at_' + key, s, I, es)
            rel = z3.Function('rel_' + key, s, B)
            d = z3.Function('diff_' + key, s, s, I)
            self.fns[key] = (ln, at, rel, d)
            a, b = z3.Const('a!', s), z3.Const('b!', s)
            self.facts.append(({ln.name(), at.name()}, z3.ForAll([a], ln(a) >= 0, patterns=[ln(a)])))
            self.facts.append(({rel.name()}, z3.ForAll([a, b], z3.Implies(
                z3.And(rel(a), rel(b), ln(a) == ln(b),
                       z3.Implies(z3.And(0 <= d(a, b), d(a, b) < ln(a)), at(a, d(a, b)) == at(b, d(a, b)))),
                a == b), patterns=[z3.MultiPattern(rel(a), rel(b))])))
            return s
        if k == 'set':
            s = z3.ArraySort(self.sort(ty.a[0]), B)
        elif k in ('dict', 'hdict'):
            key = ty.name
            ks, vs = self.sort(ty.a[0]), self.sort(ty.a[1])
            s = z3.DeclareSort('M_' + key)
            self.sorts[key] = s
            dom = z3.Function('dom_' + key, s, z3.ArraySort(ks, B))
            val = z3.Function('val_' + key, s, ks, vs)
            rel = z3.Function('rel_' + key, s, B)
            d = z3.Function('diff_' + key, s, s, ks)
            self.fns[key] = (dom, val, rel, d)
            a, b = z3.Const('a!', s), z3.Const('b!', s)
            self.facts.append(({rel.name()}, z3.ForAll([a, b], z3.Implies(
                z3.And(rel(a), rel(b), dom(a)[d(a, b)] == dom(b)[d(a, b)],
                       z3.Implies(dom(a)[d(a, b)], val(a, d(a, b)) == val(b, d(a, b)))),
                a == b), patterns=[z3.MultiPattern(rel(a), rel(b))])))
            return s
        elif k == 'tup':
            dt = z3.Datatype('T_' + key)
            dt.declare('mk_' + key, *[('p%d_%s' % (i, key), self.sort(x)) for i, x in enumerate(ty.a)])
            s = dt.create()
        elif k == 'opt':
            dt = z3.Datatype('O_' + key)
            dt.declare('none_' + key)
            dt.declare('some_' + key, ('the_' + key, self.sort(ty.a[0])))
            s = dt.create()
        elif k == 'union':
            dt = z3.Datatype('U_' + key)
            dt.declare('ina_' + key, ('a_' + key, self.sort(ty.a[0])))
            dt.declare('inb_' + key, ('b_' + key, self.sort(ty.a[1])))
            s = dt.create()
        elif k == 'obj':
            flds = self.classes.get(ty.a[0] if isinstance(ty.a[0], str) else ty.a[0].k)
            if flds is None:
                raise Unsupported('no object model for %s' % ty)
            dt = z3.Datatype('C_' + key)
            dt.declare('mk_' + key, *[('%s_%s' % (f, key), self.sort(x)) for f, x in flds.items()])
            s = dt.create()
        elif k == 'abs':
            s = z3.DeclareSort('A_' + key)
        elif k == 'str':
            s = z3.DeclareSort('Str')
        elif k == 'none':
            s = z3.DeclareSort('NoneT')
        else:
            raise Unsupported('no sort for type %s' % ty)
        self.sorts[key] = s
        return s

    def strconst(self, s):
        if s not in self.strconsts:
            srt = self.sort(STR)
            c = z3.Const('str!%d' % len(self.strconsts), srt)
            for o in self.strconsts.values():
                self.facts.append((None, c != o))
            self.strconsts[s] = c
        return self.strconsts[s]

    # -------------------------------------------------------------- term -> value
    def lift(self, term, ty):
        """The value denoted by a solver term of the sort of ty."""
        k = ty.k
        if k == 'int':
            return IntV(term)
        if k == 'bool':
            return BoolV(term)
        if k == 'str':
            return StrV(None, term)
        if k == 'none':
            return NoneV()
        if k == 'abs':
            return AbsV(ty.a[0], term)
        srt = self.sort(ty)
        if k in ('tuple', 'list'):
            ln, at, rel, _ = self.fns[ty.name]
            e = ty.a[0]
            return SeqV(k, e, ln(term), lambda i: self.lift(at(term, i), e), term=term)
        if k == 'set':
            e = ty.a[0]
            return SetV(e, lambda x: z3.Select(term, self.reify(x, e)), term=term)
        if k in ('dict', 'hdict'):
            dom, val, rel, _ = self.fns[ty.name]
            kt, vt = ty.a
            return MapV(kt, vt, lambda x: z3.Select(dom(term), self.reify(x, kt)),
                        lambda x: self.lift(val(term, self.reify(x, kt)), vt), term=term, hd=(k == 'hdict'))
        if k == 'tup':
            if term.decl().eq(srt.constructor(0)):
                return TupV([self.lift(term.arg(i), x) for i, x in enumerate(ty.a)])
            return TupV([self.lift(srt.accessor(0, i)(term), x) for i, x in enumerate(ty.a)])
        if k == 'opt':
            return OptV(srt.recognizer(0)(term), self.lift(srt.accessor(1, 0)(term), ty.a[0]))
        if k == 'union':
            return UnionV(srt.recognizer(0)(term), self.lift(srt.accessor(0, 0)(term), ty.a[0]), self.lift(srt.accessor(1, 0)(term), ty.a[1]), ty.a)
        if k == 'obj':
            cls = ty.a[0]
            flds = self.classes[cls]
            return ObjV(cls, {f: self.lift(srt.accessor(0, i)(term), x) for i, (f, x) in enumerate(flds.items())}, term=term)
        raise Unsupported('lift %s' % ty)

    def havoc(self, ty, hint='v', facts=None):
        """A fresh arbitrary value of type ty; tuples/optionals are expanded."""
        if ty.k == 'tup':
            return TupV([self.havoc(x, hint) for x in ty.a])
        if ty.k == 'none':
            return NoneV()
        if ty.k == 'opt':
            return OptV(self.fresh(B, hint + '_none'), self.havoc(ty.a[0], hint))
        if ty.k == 'union':
            return UnionV(self.fresh(B, hint + '_isa'), self.havoc(ty.a[0], hint), self.havoc(ty.a[1], hint), ty.a)
        if ty.k == 'obj':
            return ObjV(ty.a[0], {f: self.havoc(x, hint + '_' + f) for f, x in self.classes[ty.a[0]].items()})
        c = self.fresh(self.sort(ty), hint)
        if ty.k in ('tuple', 'list', 'dict', 'hdict'):
            self.mark(c, ty)
        return self.lift(c, ty)

    def boundvars(self, ty, hint='x'):
        """Value of type ty built from bound constants; returns (value, consts)."""
        if ty.k == 'tup':
            vs, cs = [], []
            for x in ty.a:
                v, c = self.boundvars(x, hint)
                vs.append(v)
                cs += c
            return TupV(vs), cs
        c = self.fresh(self.sort(ty), hint)
        return self.lift(c, ty), [c]

    def mark(self, term, ty):
        rel = self.fns[ty.name][2]
        self.facts.append(({str(term)}, rel(term)))

    # -------------------------------------------------------------- value -> term
    def coerce(self, v, ty):
        """Adjust value to type (None -> opt, empty containers, fixed tuples...)."""
        if ty.k == 'unk':
            return v
        if isinstance(v, EmptyV):
            if ty.k in ('tuple', 'list') and v.kind in ('tuple', 'list'):
                return self.empty(ty) if v.kind == ty.k else self.empty(T(v.kind, *ty.a))
            if ty.k in ('dict', 'hdict') and v.kind in ('dict', 'hdict'):
                m = self.empty(T(v.kind, *ty.a))
                d = getattr(v, 'default', None)
                if d is not None:
                    m = MapV(m.kty, m.vty, m.dom, m.val, hd=m.hd, default=self.coerce(d, m.vty))
                return m
            if ty.k == v.kind:
                return self.empty(ty)
            if ty.k == 'opt':
                return OptV(z3.BoolVal(False), self.coerce(v, ty.a[0]))
            raise Unsupported('empty %s used as %s' % (v.kind, ty))
        if ty.k == 'opt':
            if isinstance(v, OptV):
                return OptV(v.none, self.coerce(v.val, ty.a[0]))
            if isinstance(v, NoneV):
                return OptV(z3.BoolVal(True), self.dummy(ty.a[0]))
            return OptV(z3.BoolVal(False), self.coerce(v, ty.a[0]))
        if ty.k == 'union':
            if isinstance(v, UnionV):
                return v
            for n, t in enumerate(ty.a):
                if v.ty == t or isinstance(v, (BoolV, IntV)) and t == INT or isinstance(v, TupV) and t.k in ('tuple', 'tup'):
                    return UnionV(z3.BoolVal(n == 0), self.coerce(v, t) if n == 0 else self.dummy(ty.a[0]), self.coerce(v, t) if n == 1 else self.dummy(ty.a[1]), ty.a)
            raise Unsupported('%s as %s' % (v.ty, ty))
        if ty.k == 'tup' and isinstance(v, TupV):
            if len(v.items) != len(ty.a):
                raise Unsupported('tuple length %s as %s' % (v.ty, ty))
            return TupV([self.coerce(x, t) for x, t in zip(v.items, ty.a)])
        if ty.k == 'tup' and isinstance(v, SeqV) and v.items is not None and len(v.items) == len(ty.a):
            return TupV([self.coerce(x, t) for x, t in zip(v.items, ty.a)])
        if ty.k == 'tuple' and isinstance(v, TupV):
            its = [self.coerce(x, ty.a[0]) for x in v.items]
            return self.seq_of(its, 'tuple', ty.a[0])
        if ty.k in ('tuple', 'list') and isinstance(v, SeqV):
            if v.ety == ty.a[0]:
                return v
            e = ty.a[0]
            return SeqV(v.kind, e, v.len, lambda i: self.coerce(v.at(i), e),
                        items=None if v.items is None else [self.coerce(x, e) for x in v.items])
        if ty.k in ('dict', 'hdict') and isinstance(v, MapV):
            if v.kty == ty.a[0] and v.vty == ty.a[1]:
                return v
            if v.lit is not None:
                return self.map_lit([self.coerce(k, ty.a[0]) for k in v.lit[0]], [self.coerce(x, ty.a[1]) for x in v.lit[1]], ty.a[0], ty.a[1], v.hd or ty.k == 'hdict')
            return MapV(ty.a[0], ty.a[1], lambda x: v.dom(x), lambda x: self.coerce(v.val(x), ty.a[1]), hd=v.hd, default=None if v.default is None else self.coerce(v.default, ty.a[1]))
        if ty.k == 'abs' and isinstance(v, IntV) and ty.a[0] in self.rings:
            return AbsV(ty.a[0], self.ring_int(ty.a[0], v.t))
        if ty.k == 'int' and isinstance(v, BoolV):
            return IntV(ite(v.t, z3.IntVal(1), z3.IntVal(0)))
        if ty.k == 'set' and isinstance(v, SetV) and v.ety != ty.a[0]:
            return SetV(ty.a[0], lambda x: v.mem(self.coerce(x, v.ety)))
        return v

    def map_lit(self, ks, vs, kt, vt, hd=False):
        def val(x):
            r = vs[0]
            for k, v in list(zip(ks, vs))[1:]:
                r = self.vite(self.eq(x, k), v, r)
            return r
        m = MapV(kt, vt, lambda x: disj([self.eq(x, k) for k in ks]), val, hd=hd)
        m.lit = (ks, vs)
        return m

    def empty(self, ty):
        if ty.k in ('tuple', 'list'):
            return self.seq_of([], ty.k, ty.a[0])
        if ty.k == 'set':
            return SetV(ty.a[0], lambda x: z3.BoolVal(False), term=z3.K(self.sort(ty.a[0]), z3.BoolVal(False)))
        if ty.k in ('dict', 'hdict'):
            d = self.dummy(ty.a[1])
            srt = self.sort(ty)
            t = z3.Const('emptymap_%s' % ty.name, srt)
            if ('emptymap', ty.name) not in self.memo:
                self.memo[('emptymap', ty.name)] = True
                dom, val, rel, _ = self.fns[ty.name]
                self.fact(dom(t) == z3.K(self.sort(ty.a[0]), z3.BoolVal(False)), {t.decl().name()})
                self.fact(rel(t), {t.decl().name()})
            return MapV(ty.a[0], ty.a[1], lambda x: z3.BoolVal(False), lambda x: d, hd=ty.k == 'hdict', term=t)
        raise Unsupported('empty %s' % ty)

    def dummy(self, ty):
        key = ('dummy', ty)
        if key not in self.memo:
            self.memo[key] = self.havoc(ty, 'dummy')
        return self.memo[key]

    def seq_of(self, items, kind, ety):
        items = list(items)

        def at(i):
            if not items:
                return self.dummy(ety)
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = self.vite(i == k, items[k], r)
            return r
        return SeqV(kind, ety, z3.IntVal(len(items)), at, items=items)

    def generic(self, sort, k=0):
        return z3.Const('g%d!%s' % (k, sort.name()), sort)

    def reify(self, v, ty):
        v = self.coerce(v, ty)
        k = ty.k
        if k == 'int':
            if isinstance(v, OptV):
                return self.reify(v.val, ty)
            if not isinstance(v, IntV):
                raise Unsupported('%s as int' % v.ty)
            return v.t
        if k == 'bool':
            if not isinstance(v, BoolV):
                raise Unsupported('%s as bool' % v.ty)
            return v.t
        if k == 'str':
            if not isinstance(v, StrV):
                raise Unsupported('%s as str' % v.ty)
            return v.t if v.t is not None else self.strconst(v.s)
        if k == 'abs':
            if not isinstance(v, AbsV) or v.name != ty.a[0]:
                raise Unsupported('%s as %s' % (v.ty, ty))
            return v.t
        srt = self.sort(ty)
        if k == 'none':
            return z3.Const('None!', srt)
        if k == 'tup':
            if not isinstance(v, TupV):
                raise Unsupported('%s as %s' % (v.ty, ty))
            return srt.constructor(0)(*[self.reify(x, t) for x, t in zip(v.items, ty.a)])
        if k == 'opt':
            if z3.is_true(v.none):
                return srt.constructor(0)()
            some = srt.constructor(1)(self.reify(v.val, ty.a[0]))
            return ite(v.none, srt.constructor(0)(), some)
        if k == 'union':
            if z3.is_true(v.isa):
                return srt.constructor(0)(self.reify(v.a, ty.a[0]))
            if z3.is_false(v.isa):
                return srt.constructor(1)(self.reify(v.b, ty.a[1]))
            return ite(v.isa, srt.constructor(0)(self.reify(v.a, ty.a[0])), srt.constructor(1)(self.reify(v.b, ty.a[1])))
        if k == 'obj':
            if not isinstance(v, ObjV) or v.cls != ty.a[0]:
                raise Unsupported('%s as %s' % (v.ty, ty))
            if v.term is not None:
                return v.term
            return srt.constructor(0)(*[self.reify(v.fields[f], t) for f, t in self.classes[v.cls].items()])
        if getattr(v, 'term', None) is not None:
            return v.term
        if k in ('tuple', 'list'):
            if not isinstance(v, SeqV):
                raise Unsupported('%s as %s' % (v.ty, ty))
            ln, at, rel, _ = self.fns[ty.name]
            g = self.generic(I, len(self.binders))
            self.binders.append(g)
            try:
                body = self.reify(v.at(g), ty.a[0])
            finally:
                self.binders.pop()
            L = z3.simplify(v.len)
            body = z3.simplify(body)
            key = ('seq', ty.name, L.get_id(), body.get_id())
            if key in self.memo:
                v.term = self.memo[key]
                return v.term
            self.keep.append((L, body))
            t = self.canonical_seq(v, ty, L, body, g)
            if t is not None:
                self.memo[key] = t
                if getattr(v, 'filter_of', None) is not None and self.on_filter and not free_consts(t, {b.get_id(): b for b in self.binders}):
                    self.on_filter(v, t)
                if not free_consts(t, {b.get_id(): b for b in self.binders}):
                    v.term = t
                return t
            t, bs = self.named(srt, [L, body], 'q', exclude=g)
            self.memo[key] = t
            i = z3.Const('i!', I)
            b2 = z3.substitute(body, (g, i))
            name = t.decl().name()
            self.fact(self.close(bs, ln(t) == z3.If(L >= 0, L, 0) if not z3.is_int_value(L) else ln(t) == L, [t]), {name})
            self.fact(z3.ForAll(bs + [i], z3.Implies(z3.And(0 <= i, i < L), at(t, i) == b2), patterns=[at(t, i)]), {name})
            if v.items is not None:
                for n, x in enumerate(v.items):
                    self.fact(self.close(bs, at(t, z3.IntVal(n)) == self.reify(x, ty.a[0]), [t]), {name})
            self.fact(self.close(bs, rel(t), [t]), {name})
            if not bs:
                v.term = t
            return t
        if k == 'set':
            if not isinstance(v, SetV):
                raise Unsupported('%s as %s' % (v.ty, ty))
            es = self.sort(ty.a[0])
            gv, gs = self.boundvars_memo(ty.a[0])
            self.binders.extend(gs)
            try:
                body = z3.simplify(v.mem(gv))
            finally:
                del self.binders[len(self.binders) - len(gs):]
            key = ('set', ty.name, body.get_id())
            if key in self.memo:
                return self.memo[key]
            self.keep.append(body)
            t, bs = self.named(srt, [body], 's', exclude=gs)
            self.memo[key] = t
            xs = [z3.Const('y%d!' % n, g.sort()) for n, g in enumerate(gs)]
            b2 = z3.substitute(body, *zip(gs, xs))
            gt = z3.substitute(self.reify(gv, ty.a[0]), *zip(gs, xs))
            self.fact(z3.ForAll(bs + xs, z3.Select(t, gt) == b2, patterns=[z3.Select(t, gt)]), {t.decl().name()})
            if not bs:
                v.term = t
            return t
        if k in ('dict', 'hdict'):
            if not isinstance(v, MapV):
                raise Unsupported('%s as %s' % (v.ty, ty))
            dom, val, rel, _ = self.fns[ty.name]
            gv, gs = self.boundvars_memo(ty.a[0])
            self.binders.extend(gs)
            try:
                bd = z3.simplify(v.dom(gv))
                bv = z3.simplify(self.reify(v.val(gv), ty.a[1]))
            finally:
                del self.binders[len(self.binders) - len(gs):]
            key = ('map', ty.name, bd.get_id(), bv.get_id())
            if key in self.memo:
                return self.memo[key]
            self.keep.append((bd, bv))
            t, bs = self.named(srt, [bd, bv], 'm', exclude=gs)
            self.memo[key] = t
            xs = [z3.Const('y%d!' % n, g.sort()) for n, g in enumerate(gs)]
            sb = list(zip(gs, xs))
            gt = z3.substitute(self.reify(gv, ty.a[0]), *sb)
            name = t.decl().name()
            self.fact(z3.ForAll(bs + xs, z3.Select(dom(t), gt) == z3.substitute(bd, *sb), patterns=[z3.Select(dom(t), gt)]), {name})
            self.fact(z3.ForAll(bs + xs, z3.Implies(z3.substitute(bd, *sb), val(t, gt) == z3.substitute(bv, *sb)), patterns=[val(t, gt)]), {name})
            self.fact(self.close(bs, rel(t), [t]), {name})
            if not bs:
                v.term = t
            return t
        raise Unsupported('reify %s' % ty)

    def boundvars_memo(self, ty):
        key = ('bv', ty.name, len(self.binders))
        if key not in self.memo:
            self.memo[key] = self.boundvars(ty, 'g')
        return self.memo[key]

    def close(self, bs, f, pats):
        if not bs:
            return f
        return z3.ForAll(bs, f, patterns=pats)

    def canonical_seq(self, v, ty, L, body, g):
        """The sequence of length L with element body at g, as a function of the maximal subterms that
        do not depend on g: sequences that are computed alike (slices, concatenations, literals)
        are applications of the same function."""
        ln, at, rel, _ = self.fns[ty.name]
        srt = self.sort(ty)
        if v.items is not None:
            xs = [self.reify(x, ty.a[0]) for x in v.items]
            key = ('seqlit', ty.name, len(xs))
            if key not in self.memo:
                f = z3.Function('lit%d_%s' % (len(xs), ty.name), *([self.sort(ty.a[0])] * len(xs) + [srt]))
                self.memo[key] = f
                ps = [z3.Const('sp%d!' % i, self.sort(ty.a[0])) for i in range(len(xs))]
                t = f(*ps)
                self.fact(self.close(ps, z3.And(*([ln(t) == len(xs), rel(t)] + [at(t, z3.IntVal(i)) == p for i, p in enumerate(ps)])), [t]), {f.name()})
            return self.memo[key](*xs)
        seen = {}

        def dep(x):
            if x.get_id() not in seen:
                if z3.is_quantifier(x):
                    raise Unsupported('quantifier')
                seen[x.get_id()] = x.eq(g) or any(dep(c) for c in x.children())
            return seen[x.get_id()]
        params, ids = [], {}
        gc = z3.Const('gs!' + g.sort().name(), g.sort())

        def par(x):
            if x.get_id() not in ids:
                p = z3.Const('sp%d!%s' % (len(params), x.sort().name()), x.sort())
                params.append((p, x))
                ids[x.get_id()] = p
            return ids[x.get_id()]

        def go(x):
            if not dep(x):
                if z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x):
                    return x
                return par(x)
            if x.eq(g):
                return gc
            cs = x.children()
            if z3.is_add(x):
                free = [c for c in cs if not dep(c)]
                rest = [go(c) for c in cs if dep(c)]
                if free:
                    rest = [par(z3.simplify(z3.Sum(free)) if len(free) > 1 else free[0])] + rest
                return z3.Sum(rest) if len(rest) > 1 else rest[0]
            return x.decl()(*[go(c) for c in cs])
        try:
            ab = go(body)
        except (Unsupported, z3.Z3Exception):
            return None
        key = ('seqfn', ty.name, ab.get_id())
        if key not in self.memo:
            self.keep.append(ab)
            self.counter += 1
            f = z3.Function('sq!%d' % self.counter, *([p.sort() for p, _ in params] + [I, srt]))
            self.memo[key] = f
            ps, n, i = [p for p, _ in params], z3.Const('spL!', I), z3.Const('i!', I)
            t = f(*ps, n)
            nm = {f.name()}
            self.fact(z3.ForAll(ps + [n], z3.And(ln(t) == z3.If(n >= 0, n, 0), rel(t)), patterns=[t]), nm)
            self.fact(z3.ForAll(ps + [n, i], z3.Implies(z3.And(0 <= i, i < n), at(t, i) == z3.substitute(ab, (gc, i))), patterns=[at(t, i)]), nm)
        if z3.is_app_of(L, z3.Z3_OP_ITE) and z3.is_int_value(L.arg(2)) and L.arg(2).as_long() == 0 and L.arg(0).eq(L.arg(1) >= 0):
            L = L.arg(1)      # the length of a sequence built with a negative length is 0
        names = {b.get_id(): b for b in self.binders if not b.eq(g)}
        for x in [x for _, x in params] + [L]:
            if has_ite(x) and free_consts(x, names):
                return None   # could not be used in a pattern
        return self.memo[key](*[x for _, x in params], L)

    def named(self, srt, bodies, hint, exclude=None):
        """A constant (or a function of the open binders occurring in bodies)."""
        ex = {x.get_id() for x in (exclude if isinstance(exclude, list) else [exclude]) if x is not None}
        names = {b.get_id(): b for b in self.binders if b.get_id() not in ex}
        found = {}
        for b in bodies:
            found.update(free_consts(b, names))
        bs = list(found.values())
        if not bs:
            return self.fresh(srt, hint), []
        f = self.freshfn([b.sort() for b in bs], srt, hint)
        return f(*bs), bs

    # -------------------------------------------------------------- equality, merge
    def eq(self, a, b):
        """Formula: Python a == b."""
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, NoneV):
                return b.none
            if isinstance(b, NoneV):
                return a.none
            if isinstance(a, OptV) and isinstance(b, OptV):
                return z3.Or(z3.And(a.none, b.none), z3.And(neg(a.none), neg(b.none), self.eq(a.val, b.val)))
            if isinstance(a, OptV):
                return conj([neg(a.none), self.eq(a.val, b)])
            return conj([neg(b.none), self.eq(a, b.val)])
        if isinstance(a, UnionV) or isinstance(b, UnionV):
            if isinstance(a, UnionV) and isinstance(b, UnionV):
                return z3.Or(z3.And(a.isa, b.isa, self.eq(a.a, b.a)), z3.And(neg(a.isa), neg(b.isa), self.eq(a.b, b.b)))
            if isinstance(b, UnionV):
                a, b = b, a
            if isinstance(b, NoneV):
                return z3.BoolVal(False)
            return z3.Or(conj([a.isa, self.eq(a.a, b)]), conj([neg(a.isa), self.eq(a.b, b)]))
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return z3.BoolVal(isinstance(a, NoneV) and isinstance(b, NoneV))
        if isinstance(a, BoolV) and isinstance(b, IntV):
            a = self.coerce(a, INT)
        if isinstance(b, BoolV) and isinstance(a, IntV):
            b = self.coerce(b, INT)
        if isinstance(a, EmptyV) and isinstance(b, EmptyV):
            return z3.BoolVal(a.kind == b.kind)
        if isinstance(a, EmptyV):
            a, b = b, a
        if isinstance(b, EmptyV):
            if isinstance(a, SeqV):
                return z3.simplify(a.len) == 0 if a.kind == b.kind else z3.BoolVal(False)
            if isinstance(a, TupV):
                return z3.BoolVal(False)
            if isinstance(a, (SetV, MapV)):
                return neg(self.truth(a))
            return z3.BoolVal(False)
        if isinstance(a, IntV) and isinstance(b, IntV):
            return a.t == b.t
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.t == b.t
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.s is not None and b.s is not None:
                return z3.BoolVal(a.s == b.s)
            return self.reify(a, STR) == self.reify(b, STR)
        if isinstance(a, AbsV) and isinstance(b, AbsV):
            return a.t == b.t if a.name == b.name else z3.BoolVal(False)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return z3.BoolVal(a.t == b.t)
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, TupV) and isinstance(b, SeqV):
            a, b = b, a
        if isinstance(a, SeqV) and isinstance(b, TupV):
            if a.kind != 'tuple':
                return z3.BoolVal(False)
            return conj([a.len == len(b.items)] + [self.eq(a.at(z3.IntVal(i)), x) for i, x in enumerate(b.items)])
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            if a.kind != b.kind:
                return z3.BoolVal(False)
            if a.term is not None and b.term is not None and a.ty.name == b.ty.name:
                return a.term == b.term
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return z3.BoolVal(False)
                return conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
            if b.items is not None and len(b.items) <= 4:
                a, b = b, a
            if a.items is not None and len(a.items) <= 4:
                return conj([b.len == len(a.items)] + [self.eq(x, b.at(z3.IntVal(i))) for i, x in enumerate(a.items)])
            i = self.fresh(I, 'e')
            self.binders.append(i)
            try:
                body = self.eq(a.at(i), b.at(i))
            finally:
                self.binders.pop()
            return z3.And(a.len == b.len, self.forall([i], implies(z3.And(0 <= i, i < a.len), body)))
        if isinstance(a, SetV) and isinstance(b, SetV):
            x, cs = self.boundvars(a.ety)
            self.binders.extend(cs)
            try:
                body = a.mem(x) == b.mem(x)
            finally:
                del self.binders[len(self.binders) - len(cs):]
            return self.forall(cs, body)
        if isinstance(a, MapV) and isinstance(b, MapV):
            if a.term is not None and b.term is not None and a.ty.name == b.ty.name:
                return a.term == b.term
            x, cs = self.boundvars(a.kty)
            self.binders.extend(cs)
            try:
                body = z3.And(a.dom(x) == b.dom(x), implies(a.dom(x), self.eq(a.val(x), b.val(x))))
            finally:
                del self.binders[len(self.binders) - len(cs):]
            return self.forall(cs, body)
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls == b.cls:
            return conj([self.eq(a.fields[f], b.fields[f]) for f in a.fields])
        if type(a) != type(b) and not isinstance(a, (ObjV, AbsV)) and not isinstance(b, (ObjV, AbsV)):
            return z3.BoolVal(False)
        raise Unsupported('== between %s and %s' % (a.ty, b.ty))

    def forall(self, cs, body, patterns=None):
        if z3.is_true(body):
            return body
        if patterns:
            try:
                return z3.ForAll(cs, body, patterns=patterns)
            except z3.Z3Exception:
                # the trigger has an interpreted connective in it
                return z3.ForAll(cs, body)
        body = self.recentre(cs, body)
        return z3.ForAll(cs, body)

    def recentre(self, cs, body):
        """Rebind integer binders that only occur as x + c inside symbol applications."""
        ids = {c.get_id(): c for c in cs if c.sort() == I}
        if not ids:
            return body
        offs = {}
        seen, stack = set(), [body]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            app = z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR)) and t.num_args() > 0
            for a in t.children():
                if app:
                    if a.get_id() in ids:
                        offs.setdefault(a.get_id(), set()).add(0)
                    elif z3.is_add(a) and a.num_args() == 2:
                        x, k = a.arg(0), a.arg(1)
                        if z3.is_int_value(x):
                            x, k = k, x
                        if x.get_id() in ids and z3.is_int_value(k):
                            offs.setdefault(x.get_id(), set()).add(k.as_long())
                        else:
                            for f in free_consts(a, ids):
                                offs.setdefault(f, set()).add(None)
                stack.append(a)
        sub = []
        for i, o in offs.items():
            if len(o) == 1 and 0 not in o and None not in o:
                sub.append((ids[i], ids[i] - z3.IntVal(list(o)[0])))
        if not sub:
            return body
        return z3.simplify(z3.substitute(body, *sub))

    def exists(self, cs, body):
        if z3.is_false(body):
            return body
        return z3.Exists(cs, self.recentre(cs, body))

    def truth(self, v):
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, IntV):
            return v.t != 0
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, EmptyV):
            return z3.BoolVal(False)
        if isinstance(v, OptV):
            return conj([neg(v.none), self.truth(v.val)])
        if isinstance(v, UnionV):
            return z3.If(v.isa, self.truth(v.a), self.truth(v.b))
        if isinstance(v, AbsV):
            if v.name in self.rings:
                return v.t != self.ring_int(v.name, z3.IntVal(0))
            if len(v.name) == 2 and v.name[1] == 'F':
                return z3.BoolVal(True)      # function objects are true
            raise Unsupported('truth value of an abstract value')
        if isinstance(v, TupV):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, SeqV):
            return z3.simplify(v.len > 0)
        if isinstance(v, SetV):
            x, cs = self.boundvars(v.ety)
            self.binders.extend(cs)
            try:
                m = v.mem(x)
            finally:
                del self.binders[len(self.binders) - len(cs):]
            return self.exists(cs, m)
        if isinstance(v, MapV):
            x, cs = self.boundvars(v.kty)
            self.binders.extend(cs)
            try:
                m = v.dom(x)
            finally:
                del self.binders[len(self.binders) - len(cs):]
            return self.exists(cs, m)
        if isinstance(v, StrV) and v.s is not None:
            return z3.BoolVal(bool(v.s))
        raise Unsupported('truth value of %s' % v.ty)

    rings = ('R',)

    def ring_int(self, name, t):
        """The image of an integer in the commutative ring of coefficients."""
        self.ring_facts(name)
        return z3.Function('ofint_%s' % name, I, self.sort(T('abs', name)))(t)

    def ring_facts(self, name):
        if ('ring', name) in self.memo:
            return
        self.memo[('ring', name)] = True
        s = self.sort(T('abs', name))
        add, mul, sub = [z3.Function('%s_%s' % (o, name), s, s, s) for o in ('add', 'mul', 'sub')]
        ng, of = z3.Function('neg_%s' % name, s, s), z3.Function('ofint_%s' % name, I, s)
        a, b, c = [z3.Const(x, s) for x in ('ra!', 'rb!', 'rc!')]
        zero, one = of(z3.IntVal(0)), of(z3.IntVal(1))

        def F(vs, f, *pats):
            self.fact(z3.ForAll(vs, f, patterns=list(pats)), {'add_' + name, 'mul_' + name, 'sub_' + name, 'neg_' + name})
        F([a, b], add(a, b) == add(b, a), add(a, b))
        F([a, b, c], add(add(a, b), c) == add(a, add(b, c)), add(add(a, b), c))
        F([a], add(a, zero) == a, add(a, zero))
        F([a], z3.And(add(a, ng(a)) == zero, ng(ng(a)) == a), ng(a))
        F([a, b], z3.And(sub(a, b) == add(a, ng(b)), z3.Implies(sub(a, b) == zero, a == b)), sub(a, b))
        F([a, b], mul(a, b) == mul(b, a), mul(a, b))
        F([a, b, c], mul(mul(a, b), c) == mul(a, mul(b, c)), mul(mul(a, b), c))
        F([a, b, c], mul(add(a, b), c) == add(mul(a, c), mul(b, c)), mul(add(a, b), c))
        F([a, b, c], mul(c, add(a, b)) == add(mul(c, a), mul(c, b)), mul(c, add(a, b)))
        F([a], mul(a, one) == a, mul(a, one))
        F([a], mul(a, zero) == zero, mul(a, zero))
        F([a], mul(a, of(z3.IntVal(-1))) == ng(a), mul(a, of(z3.IntVal(-1))))
        self.facts.append(({'ofint_' + name}, z3.And(zero != one, ng(zero) == zero)))
        # characteristic zero: a nonzero integer is a nonzero element
        k = z3.Const('ri!', I)
        self.facts.append(({'ofint_' + name}, z3.ForAll([k], z3.Implies(of(k) == zero, k == 0), patterns=[of(k)])))

    def join_ty(self, a, b):
        """Least common type, resolving unknown element types."""
        if a == b:
            return a
        if a.k == 'unk':
            return b
        if b.k == 'unk':
            return a
        if a.k == 'none':
            return b if b.k == 'opt' else T('opt', b)
        if b.k == 'none':
            return a if a.k == 'opt' else T('opt', a)
        if a.k == 'opt' or b.k == 'opt':
            return T('opt', self.join_ty(a.a[0] if a.k == 'opt' else a, b.a[0] if b.k == 'opt' else b))
        if a.k == 'union' or b.k == 'union':
            u, w = (a, b) if a.k == 'union' else (b, a)
            if w in u.a or w == BOOL and INT in u.a or w.k == 'tup':
                return u
            raise Unsupported('no common type of %s and %s' % (a, b))
        if a.k == b.k and len(a.a) == len(b.a) and a.k not in ('abs', 'obj'):
            return T(a.k, *[self.join_ty(x, y) for x, y in zip(a.a, b.a)])
        if {a.k, b.k} == {'tup', 'tuple'}:
            t, s = (a, b) if a.k == 'tup' else (b, a)
            e = s.a[0]
            for x in t.a:
                e = self.join_ty(e, x)
            return T('tuple', e)
        if a.k == 'tup' and b.k == 'tup':
            e = UNK
            for x in a.a + b.a:
                e = self.join_ty(e, x)
            return T('tuple', e)
        if {a.k, b.k} == {'int', 'bool'}:
            return INT
        if {a.k, b.k} == {'int', 'abs'}:
            r = a if a.k == 'abs' else b
            if r.a[0] in self.rings:
                return r
        if a.k == b.k == 'abs' and a.a == b.a:
            return a
        if {a.k, b.k} == {'dict', 'hdict'}:
            return T('dict', *[self.join_ty(x, y) for x, y in zip(a.a, b.a)])
        raise Unsupported('no common type of %s and %s' % (a, b))

    def vite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if a.ty != b.ty or isinstance(a, EmptyV):
            ty = self.join_ty(a.ty, b.ty)
            if isinstance(a, EmptyV) and isinstance(b, EmptyV):
                return a
            a, b = self.coerce(a, ty), self.coerce(b, ty)
        if isinstance(a, IntV):
            return IntV(ite(c, a.t, b.t))
        if isinstance(a, BoolV):
            return BoolV(ite(c, a.t, b.t))
        if isinstance(a, AbsV):
            return AbsV(a.name, ite(c, a.t, b.t))
        if isinstance(a, NoneV):
            return a
        if isinstance(a, StrV):
            return StrV(None, ite(c, self.reify(a, STR), self.reify(b, STR)))
        if isinstance(a, TupV):
            return TupV([self.vite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, OptV):
            return OptV(ite(c, a.none, b.none), self.vite(c, a.val, b.val))
        if isinstance(a, UnionV):
            return UnionV(ite(c, a.isa, b.isa), self.vite(c, a.a, b.a), self.vite(c, a.b, b.b), a.tys)
        if isinstance(a, SeqV):
            t = ite(c, a.term, b.term) if a.term is not None and b.term is not None else None
            return SeqV(a.kind, a.ety, ite(c, a.len, b.len), lambda i: self.vite(c, a.at(i), b.at(i)), term=t)
        if isinstance(a, SetV):
            t = ite(c, a.term, b.term) if a.term is not None and b.term is not None else None
            return SetV(a.ety, lambda x: ite(c, a.mem(x), b.mem(x)), term=t)
        if isinstance(a, MapV):
            t = ite(c, a.term, b.term) if a.term is not None and b.term is not None else None
            return MapV(a.kty, a.vty, lambda x: ite(c, a.dom(x), b.dom(x)), lambda x: self.vite(c, a.val(x), b.val(x)), term=t, hd=a.hd)
        if isinstance(a, ObjV) and a.cls == b.cls:
            return ObjV(a.cls, {f: self.vite(c, a.fields[f], b.fields[f]) for f in a.fields})
        raise Unsupported('merge of %s' % a.ty)
