"""Verification-condition generator: forward symbolic execution of one function
of /repo under its contract; loops are cut at invariants and calls are replaced
by the callee's contract (or the callee's body when it has no contract)."""
import ast
import re
import difflib
import z3
from .values import *
from .theory import *
from .repo import walk_own

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'add', 'update', 'discard', 'clear', 'setdefault', 'popitem'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sorted', 'reversed', 'min', 'max', 'sum', 'any', 'all', 'abs', 'tuple', 'list', 'set',
            'dict', 'isinstance', 'type', 'int', 'bool', 'str', 'next', 'iter', 'map', 'filter', 'print', 'defaultdict', 'HashableDict', 'repr', 'frozenset', 'hash'}


class Ob:
    def __init__(self, name, hyps, goal, kind='valid'):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind


class St:
    def __init__(self, env, pc=(), owned=(), aliases=None):
        self.env, self.pc, self.owned = dict(env), list(pc), set(owned)

    def copy(self):
        return St(self.env, self.pc, self.owned)

    def assume(self, t, kind='c'):
        if not z3.is_true(t):
            self.pc.append((kind, t))
        return self


class Frame:
    def __init__(self, qual, mod, cls, contract=None, outer_env=None):
        self.qual, self.mod, self.cls, self.contract, self.outer_env = qual, mod, cls, contract, outer_env


def is_quant(t, memo={}):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


class Exec:
    MAXDEPTH = 12

    def __init__(self, repo, reg):
        self.repo, self.reg = repo, reg
        self.th = Theory(reg.classes)
        self.obs = []
        self.obl = True           # emit obligations
        self.spec = False         # evaluating a contract expression
        self.guards = []          # local assumptions while evaluating sub-expressions
        self.st = None
        self.frame = None
        self.callees = set()
        self.inlined = set()
        self.probe = 0
        self.depth = 0
        self.pure_axioms = {}
        self.symfns = {}
        self.names = {}
        self.old_env = {}
        self.lemmas_used = set()
        self.macros_used = set()
        self.raise_stack = None
        self.qs = z3.Solver()
        self.qs.set('timeout', 150)
        self.qcache = {}
        self.entry = None
        self.th.on_filter = self.filter_elems
        self.entry_frame = None
        self.local_fns = {}
        self.nloops = 0
        self.notes = []
        self.hint_skips = []
        self.assumptions = set()
        self.current_entry_args = None
        self.setind_env = None

    # ------------------------------------------------------------ obligations
    def ob(self, name, goal, st=None, kind='valid'):
        if not self.obl or self.probe:
            return
        st = st or self.st
        hyps = [t for _, t in st.pc] + list(self.guards)
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        full = name if k == 0 else '%s~%d' % (name, k)
        self.obs.append(Ob(full, hyps, goal, kind))

    def hyps_qf(self):
        hs = []
        if self.st is not None:
            hs += [t for _, t in self.st.pc]
        hs += self.guards
        return [h for h in hs if not is_quant(h)]

    def entails(self, goal):
        """Cheap, incomplete test used only to simplify terms."""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        hs = self.hyps_qf()
        key = (g.get_id(), tuple(h.get_id() for h in hs))
        if key in self.qcache:
            return self.qcache[key][0]
        self.qs.push()
        for h in hs:
            self.qs.add(h)
        for _, f in [(d, f) for d, f in self.th.facts if False]:
            self.qs.add(f)
        lens = self.len_terms([g] + hs)
        for l in lens:
            self.qs.add(l >= 0)
        self.qs.add(z3.Not(g))
        r = self.qs.check() == z3.unsat
        self.qs.pop()
        self.qcache[key] = (r, g, hs)
        return r

    def len_terms(self, fs):
        out, seen, stack = {}, set(), list(fs)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('len_'):
                out[x.get_id()] = x
            stack.extend(x.children())
        return list(out.values())

    def feasible(self, st):
        self.st, old = st, self.st
        g, self.guards = self.guards, []
        try:
            return not self.entails(FALSE)
        finally:
            self.st, self.guards = old, g

    # ------------------------------------------------------------ contract expressions
    def spec_eval(self, src, env, frame=None):
        node = src if isinstance(src, ast.AST) else ast.parse(src, mode='eval').body
        sv = (self.spec, self.obl, self.frame)
        self.spec, self.obl = True, False
        if frame is not None:
            self.frame = frame
        try:
            return self.ev(node, env)
        finally:
            self.spec, self.obl, self.frame = sv

    def spec_bool(self, src, env, frame=None):
        return self.th.truth(self.spec_eval(src, env, frame))

    # ------------------------------------------------------------ binders
    def with_binders(self, consts, guard, fn):
        self.th.binders.extend(consts)
        self.guards.append(guard)
        try:
            return fn()
        finally:
            self.guards.pop()
            del self.th.binders[len(self.th.binders) - len(consts):]

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        if name in env:
            return env[name]
        f = self.frame
        if f is not None and f.outer_env is not None and name in f.outer_env:
            return f.outer_env[name]
        if self.spec:
            if name in self.reg.macros or name in self.reg.specfns or name in self.reg.folds or name in self.reg.lemmas \
                    or name in ('implies', 'iff', 'same', 'term', 'forall', 'exists', 'old', 'setof', 'same_elems', 'distinct', 'lex', 'mapof', 'card', 'unfold', 'seqof', 'store', 'emptyset', 'emptymap', 'seteq', 'minus1', 'isnone', 'the', 'isint', 'asint', 'asseq', 'mono', 'opaque', 'the_seq', 'as_list', 'rank', 'as_tuple', 'prefix', 'obj'):
                return SpecFnV(name)
            for c, q in self.reg.classinfo.items():
                if name == c:
                    return ClassV(q)
        if f is not None:
            # nested functions of enclosing functions
            q = f.qual
            while q:
                if q in self.repo.fns and q + '.' + name in self.repo.fns:
                    return FuncV(q + '.' + name, env=None)
                if '.' not in q:
                    break
                q = q.rsplit('.', 1)[0]
            mod = f.mod
            if '%s.%s' % (mod, name) in self.repo.fns and not (name in BUILTINS):
                return FuncV('%s.%s' % (mod, name))
            cq = self.repo.resolve_class(mod, name)
            if name == 'HashableDict':
                return TypeV('HashableDict')
            if cq:
                return ClassV(cq)
            imp = self.repo.imports.get(mod, {}).get(name)
            if imp:
                if imp[1] is None:
                    return ModV(imp[0])
                if '%s.%s' % imp in self.repo.fns:
                    return FuncV('%s.%s' % imp)
                if imp[0] in self.repo.globals and imp[1] in self.repo.globals[imp[0]]:
                    return self.global_value(imp[0], imp[1])
                if name in ('defaultdict',):
                    return TypeV('defaultdict')
            if name in self.repo.globals.get(mod, {}):
                return self.global_value(mod, name)
        if name in BUILTINS:
            return TypeV(name)
        if name in ('Exception', 'TypeError', 'NotImplementedError', 'ValueError'):
            return TypeV(name)
        raise Unsupported('name %s' % name)

    def global_value(self, mod, name):
        node = self.repo.globals[mod][name]
        gc = self.reg.gconsts.get('%s.%s' % (mod, name))
        if gc is not None:
            if ast.unparse(node) != gc[1]:
                raise Unsupported('the definition of %s.%s changed' % (mod, name))
            self.assumptions.add('%s.%s = %s is a fixed value of type %s' % (mod, name, gc[1], gc[0]))
            return self.th.lift(z3.Const('const_%s.%s' % (mod, name), self.th.sort(gc[0])), gc[0])
        gd = self.reg.gdicts.get('%s.%s' % (mod, name))
        if gd is not None:
            # a memo table: arbitrary content that satisfies the table's invariant
            if not isinstance(node, ast.Dict):
                raise Unsupported('memo table %s.%s is not a literal' % (mod, name))
            self.table_users(mod, name)
            ty, inv = gd
            ghost = '@table:%s.%s' % (mod, name)
            if node.keys and not self.spec and self.st is not None and ghost not in self.st.env:
                init = [self.memo_entry('%s.%s' % (mod, name), self.ev(kn, {}), self.ev(vn, {}), self.st, 'initial-entry') for kn, vn in zip(node.keys, node.values)]
            else:
                init = []
            v = self.th.havoc(ty, name)
            for k, _ in init:
                self.st.assume(v.dom(k), 'f')
            if self.st is not None and not self.spec:
                # entries are never removed
                last = self.st.env.get(ghost)
                if last is not None:
                    k, cs = self.th.boundvars(ty.a[0])
                    self.st.assume(self.th.forall(cs, self.with_binders(cs, TRUE, lambda: implies(last.dom(k), v.dom(k)))), 'f')
                self.st.env[ghost] = v
            if inv is not None:
                k, cs = self.th.boundvars(ty.a[0])

                def body():
                    e = {}
                    self.bind_lambda(inv, [k, v.val(k)], e)
                    return implies(v.dom(k), self.spec_bool(inv.body, e))
                f = self.th.forall(cs, self.with_binders(cs, TRUE, body))
                if self.st is not None:
                    self.st.assume(f, 'f')
            return v
        sv = self.frame
        self.frame = Frame(mod, mod, None)
        try:
            v = self.ev(node, {})
        finally:
            self.frame = sv
        if isinstance(v, EmptyV) or isinstance(v, (MapV, SetV)):
            raise Unsupported('module-level container %s.%s' % (mod, name))
        return v

    def memo_entry(self, gq, k, v, st, what):
        """Obligation: the entry k: v satisfies the invariant of the memo table."""
        ty, inv = self.reg.gdicts[gq]
        k, w = self.fit(k, ty.a[0]), self.fit(v, ty.a[1])
        name = gq.split('.')[-1]
        if k is None or w is None:
            self.ob('memo-type:%s' % name, FALSE, st)
            raise Unsupported('type of memo entry of %s' % name)
        if inv is not None:
            e = {}
            self.bind_lambda(inv, [k, w], e)
            self.ob('memo-%s:%s' % (what, name), self.spec_bool(inv.body, e), st)
        return k, w

    def table_users(self, mod, name):
        """Every function that mentions a memo table is under contract."""
        for m, tree in self.repo.mods.items():
            if m != mod and self.repo.imports.get(m, {}).get(name) != (mod, name) and not any(v == (mod, None) for v in self.repo.imports.get(m, {}).values()):
                continue
            if m != mod and self.repo.imports.get(m, {}).get(name) != (mod, name):
                if any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(tree)):
                    raise Unsupported('memo table %s used from %s' % (name, m))
                continue
            for fn in self.repo.fns.values():
                if fn.mod == m and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(fn.node)) and not any(not c.trusted for c in self.reg.contracts.get(fn.qual, [])):
                    raise Unsupported('memo table %s is used by %s, which has no contract' % (name, fn.qual))

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env):
        v = n.value
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, int):
            return IntV(v)
        if v is None:
            return NoneV()
        if isinstance(v, str):
            return StrV(v)
        raise Unsupported('constant %r' % (v,))

    def ev_JoinedStr(self, n, env):
        return StrV(None, self.th.fresh(self.th.sort(STR), 'fstr'))

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Tuple(self, n, env):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                raise Unsupported('starred')
            items.append(self.ev(e, env))
        if not items:
            return EmptyV('tuple')
        return TupV(items)

    def ev_List(self, n, env):
        items = [self.ev(e, env) for e in n.elts]
        if not items:
            return EmptyV('list')
        ty = items[0].ty
        for x in items[1:]:
            ty = self.th.join_ty(ty, x.ty)
        items = [self.th.coerce(x, ty) for x in items]
        return self.th.seq_of(items, 'list', ty)

    def ev_Set(self, n, env):
        items = [self.ev(e, env) for e in n.elts]
        ty = items[0].ty
        r = SetV(ty, lambda x: disj([self.th.eq(x, i) for i in items]))
        r.lit = items
        return r

    def ev_Dict(self, n, env):
        if not n.keys:
            return EmptyV('dict')
        ks = [self.ev(k, env) for k in n.keys]
        vs = [self.ev(v, env) for v in n.values]
        kt, vt = ks[0].ty, vs[0].ty
        for k, v in zip(ks[1:], vs[1:]):
            kt, vt = self.th.join_ty(kt, k.ty), self.th.join_ty(vt, v.ty)
        for k in ks:
            self.hashable(k)
        if not self.type_unk(kt):
            ks = [self.th.coerce(k, kt) for k in ks]
        if not self.type_unk(vt):
            vs = [self.th.coerce(v, vt) for v in vs]
        return self.th.map_lit(ks, vs, kt, vt)

    def hashable(self, k):
        """The program is about to use k as a dictionary key or set element."""
        if self.spec:
            return
        if isinstance(k, MapV) and not k.hd or isinstance(k, (SeqV, EmptyV)) and k.kind in ('list', 'dict', 'set') or isinstance(k, SetV) and False:
            self.ob('hashable:%s' % k.ty, FALSE)

    def ev_IfExp(self, n, env):
        c = self.truth(self.ev(n.test, env))
        c = z3.simplify(c)
        if z3.is_true(c):
            return self.ev(n.body, env)
        if z3.is_false(c):
            return self.ev(n.orelse, env)
        if not self.spec and self.entails(c):
            return self.ev(n.body, env)
        if not self.spec and self.entails(neg(c)):
            return self.ev(n.orelse, env)
        self.guards.append(c)
        a = self.ev(n.body, self.narrow(n.test, env, True))
        self.guards[-1] = neg(c)
        b = self.ev(n.orelse, self.narrow(n.test, env, False))
        self.guards.pop()
        return self.th.vite(c, a, b)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        vals, k = [], 0
        e = env
        try:
            for i, x in enumerate(n.values):
                v = self.ev(x, e)
                vals.append(v)
                if isinstance(v, OpaqueV):
                    # of unknown truth: the whole is opaque
                    for y in n.values[i + 1:]:
                        self.ev(y, e)
                    return v
                t = z3.simplify(self.th.truth(v)) if not isinstance(v, (ObjV, FuncV, UFuncV, LambdaV, ClassV)) else self.truth(v)
                if isand and z3.is_false(t) and not self.spec:
                    break
                if not isand and z3.is_true(t):
                    break
                self.guards.append(t if isand else neg(t))
                k += 1
                e = self.narrow(x, e, isand)
        finally:
            for _ in range(k):
                self.guards.pop()
        if all(isinstance(v, BoolV) for v in vals):
            return BoolV(conj([v.t for v in vals]) if isand else disj([v.t for v in vals]))
        try:
            r = vals[-1]
            for v in reversed(vals[:-1]):
                t = self.truth(v)
                r = self.th.vite(t, r, v) if isand else self.th.vite(t, v, r)
            return r
        except Unsupported:
            ts = [self.truth(v) for v in vals]
            return BoolV(conj(ts) if isand else disj(ts))

    def truth(self, v):
        if isinstance(v, (FuncV, UFuncV, LambdaV, ClassV)):
            return TRUE
        if isinstance(v, ObjV):
            q = self.reg.classinfo.get(v.cls)
            for mname in ('__bool__', '__len__'):
                mq = self.repo.method(q, mname)
                if mq:
                    return self.th.truth(self.call_qual(mq, [v], {}))
            return TRUE
        return self.th.truth(v)

    def narrow(self, test, env, positive):
        """Narrow optionals in env after a test on a plain name."""
        out = dict(env)

        def go(t, pos):
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and pos:
                for x in t.values:
                    go(x, True)
            elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and not pos:
                for x in t.values:
                    go(x, False)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                go(t.operand, not pos)
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                    isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                v = out.get(t.left.id)
                if isinstance(v, OptV):
                    isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
                    if isnone == pos:
                        out[t.left.id] = NoneV()
                    else:
                        out[t.left.id] = v.val
            elif isinstance(t, ast.Name) and pos:
                v = out.get(t.id)
                if isinstance(v, OptV):
                    out[t.id] = v.val
            elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('isinstance', 'isint') and t.args and isinstance(t.args[0], ast.Name):
                go_type(t.args[0].id, [ast.Name('int', ast.Load())] if t.func.id == 'isint' else (t.args[1].elts if isinstance(t.args[1], (ast.Tuple, ast.List)) else [t.args[1]]), pos)
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == 'type' and \
                    isinstance(t.left.args[0], ast.Name):
                c, op = t.comparators[0], t.ops[0]
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List)):
                    go_type(t.left.args[0].id, c.elts, pos == isinstance(op, ast.In))
                elif isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                    go_type(t.left.args[0].id, [c], pos == isinstance(op, (ast.Eq, ast.Is)))

        def go_type(x, types, pos):
            v = out.get(x)
            if not isinstance(v, (OptV, UnionV)) or not all(isinstance(y, ast.Name) for y in types):
                return
            names = {y.id for y in types}

            def has(w):
                nm = self.typename(w)
                return nm in names
            if isinstance(v, OptV) and pos:
                v = v.val
            if isinstance(v, UnionV):
                ha, hb = has(v.a) == pos, has(v.b) == pos
                if ha != hb:
                    v = v.a if ha else v.b
            out[x] = v
        go(test, positive)
        return out

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return BoolV(neg(self.truth(v)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, ObjV):
                return self.dunder(v, '__neg__', [])
            v = self.need(v, n)
            if isinstance(v, AbsV):
                return AbsV(v.name, self.absop('neg', [v]))
            return IntV(negi(self.th.reify(v, INT)))
        raise Unsupported('unary %s' % type(n.op).__name__)

    def absop(self, op, vs):
        if vs[0].name in self.th.rings:
            self.th.ring_facts(vs[0].name)
        srt = self.th.sort(vs[0].ty)
        f = z3.Function('%s_%s' % (op, vs[0].name), *[self.th.sort(v.ty) for v in vs], srt)
        return f(*[v.t for v in vs])

    def need(self, v, node=None):
        """Use of an optional as a plain value: it must not be None."""
        if isinstance(v, OptV):
            if not self.spec:
                self.ob('not-none:%s' % self.src(node), neg(v.none))
            v = v.val
        if isinstance(v, NoneV) and not self.spec:
            self.ob('not-none:%s' % self.src(node), FALSE)
            raise Unsupported('None used as a value')
        return v

    def pick(self, v, container, node=None):
        """Use of a union as a container, or as an integer: it must be of that side."""
        if isinstance(v, OptV) and isinstance(v.val, UnionV):
            v = self.need(v, node)
        if not isinstance(v, UnionV):
            return v
        def ok(w):
            return isinstance(w, (SeqV, TupV, SetV, MapV, EmptyV)) if container else isinstance(w, (IntV, BoolV, AbsV))
        oa, ob = ok(v.a), ok(v.b)
        if oa == ob:
            raise Unsupported('union used without a type test: %s' % self.src(node))
        if not self.spec:
            self.ob('%s:%s' % ('is-container' if container else 'is-number', self.src(node)), v.isa if oa else neg(v.isa))
        return v.a if oa else v.b

    def src(self, node):
        try:
            return ast.unparse(node)[:60] if node is not None else '?'
        except Exception:
            return '?'

    def ev_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b, n)

    def dunder(self, obj, name, args):
        q = self.reg.classinfo.get(obj.cls)
        mq = self.repo.method(q, name) if q else None
        if mq is None:
            raise Unsupported('%s.%s' % (obj.cls, name))
        return self.call_qual(mq, [obj] + args, {})

    OPS = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
           'FloorDiv': ('__floordiv__', None), 'Mod': ('__mod__', None), 'Pow': ('__pow__', None), 'Div': ('__truediv__', None)}

    def binop(self, op, a, b, n=None):
        if not isinstance(a, (ObjV, AbsV)) or not isinstance(b, (ObjV, AbsV)):
            if isinstance(a, OptV):
                a = self.need(a, n)
            if isinstance(b, OptV):
                b = self.need(b, n)
        if isinstance(a, UnionV) and not isinstance(b, UnionV):
            a = self.pick(a, isinstance(b, (SeqV, TupV, SetV, MapV, EmptyV)), n)
        elif isinstance(b, UnionV) and not isinstance(a, UnionV):
            b = self.pick(b, isinstance(a, (SeqV, TupV, SetV, MapV, EmptyV)), n)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            f, r = self.OPS[op]
            if isinstance(a, ObjV):
                return self.dunder(a, f, [b])
            return self.dunder(b, r, [a])
        if isinstance(a, AbsV) or isinstance(b, AbsV):
            return self.abs_binop(op, a, b)
        ints = isinstance(a, (IntV, BoolV)) and isinstance(b, (IntV, BoolV))
        if ints:
            x, y = self.th.reify(a, INT), self.th.reify(b, INT)
            if op == 'Add':
                return IntV(add(x, y))
            if op == 'Sub':
                return IntV(sub(x, y))
            if op == 'Mult':
                if z3.is_int_value(x) and z3.is_int_value(y):
                    return IntV(x.as_long() * y.as_long())
                return IntV(x * y)
            if op in ('FloorDiv', 'Mod'):
                if not self.spec:
                    self.ob('nonzero-divisor:%s' % self.src(n), y != 0)
                if z3.is_int_value(y) and y.as_long() > 0 or self.entails(y > 0):
                    d, m = x / y, x % y
                else:
                    d = z3.If(y > 0, x / y, (-x) / (-y))
                    m = x - y * d
                return IntV(d if op == 'FloorDiv' else m)
            if op == 'Pow':
                if z3.is_int_value(x) and z3.is_int_value(y) and 0 <= y.as_long() <= 4096:
                    return IntV(x.as_long() ** y.as_long())
                if z3.is_int_value(y) and 0 <= y.as_long() <= 8:
                    r = z3.IntVal(1)
                    for _ in range(y.as_long()):
                        r = r * x
                    return IntV(z3.simplify(r))
                f = z3.Function('ipow', I, I, I)
                if 'ipow' not in self.th.memo:
                    self.th.memo['ipow'] = True
                    u, w = z3.Const('u!', I), z3.Const('w!', I)
                    self.th.fact(z3.ForAll([u, w], z3.And(z3.Implies(w == 0, f(u, w) == 1), z3.Implies(w > 0, f(u, w) == u * f(u, w - 1))), patterns=[f(u, w)]), {'ipow'})
                if not self.spec:
                    self.ob('integer power with non-negative exponent:%s' % self.src(n), y >= 0)
                return IntV(f(x, y))
            if op in ('BitOr', 'BitAnd') and isinstance(a, BoolV) and isinstance(b, BoolV):
                return BoolV(z3.Or(a.t, b.t) if op == 'BitOr' else z3.And(a.t, b.t))
            raise Unsupported('int op %s' % op)
        if isinstance(a, CompV) or isinstance(b, CompV):
            raise Unsupported('operator on generator')
        if op == 'Add':
            return self.concat(a, b)
        if op == 'Mult':
            if isinstance(a, IntV):
                a, b = b, a
            if isinstance(b, IntV) and isinstance(a, (SeqV, TupV)):
                s = self.as_seq(a)
                L = ite(b.t >= 0, b.t, z3.IntVal(0)) if not self.entails(b.t >= 0) else b.t
                if z3.is_int_value(z3.simplify(s.len)) and z3.simplify(s.len).as_long() == 1:
                    e = s.at(z3.IntVal(0))
                    return SeqV(s.kind, s.ety, L, lambda i: e)
                raise Unsupported('sequence repetition')
            if isinstance(a, EmptyV):
                return a
        sets = (SetV, EmptyV)
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(a, sets) and isinstance(b, sets):
            if isinstance(a, EmptyV) and isinstance(b, EmptyV):
                return a
            ty = self.th.join_ty(a.ty, b.ty)
            a, b = self.th.coerce(a, ty), self.th.coerce(b, ty)
            e = ty.a[0]
            if op == 'BitOr':
                return SetV(e, lambda x: disj([a.mem(x), b.mem(x)]))
            if op == 'BitAnd':
                return SetV(e, lambda x: conj([a.mem(x), b.mem(x)]))
            if op == 'Sub':
                return SetV(e, lambda x: conj([a.mem(x), neg(b.mem(x))]))
            return SetV(e, lambda x: a.mem(x) != b.mem(x))
        if isinstance(a, StrV) or isinstance(b, StrV):
            return StrV(None, self.th.fresh(self.th.sort(STR), 'str'))
        raise Unsupported('%s on %s and %s' % (op, a.ty, b.ty))

    def abs_binop(self, op, a, b):
        ty = a.ty if isinstance(a, AbsV) else b.ty
        if op == 'Pow' and isinstance(a, AbsV) and ty.a[0] in self.th.rings and isinstance(b, IntV):
            # powers of ring elements: only a fixed function of base and exponent; negative exponents
            # for the invertible ones, which are the parameter beta, its powers and their negatives
            def unit(t):
                d = t.decl().name()
                return d.startswith('const_') or d in ('neg_' + ty.a[0], 'pow_' + ty.a[0]) and unit(t.arg(0))
            if not self.spec:
                if unit(a.t):
                    self.assumptions.add('integer powers of the monomial beta and its negative exist (C01: Polynomial.__pow__)')
                else:
                    self.ob('exponent-nonnegative', b.t >= 0)
            srt = self.th.sort(ty)
            return AbsV(ty.a[0], z3.Function('pow_%s' % ty.a[0], srt, I, srt)(a.t, b.t))
        if op in ('Mod', 'FloorDiv') and isinstance(a, AbsV) and isinstance(b, IntV) and ty.a[0] in self.th.rings:
            # a fixed function of the arguments
            srt = self.th.sort(ty)
            return AbsV(ty.a[0], z3.Function('%s_%s' % (op.lower(), ty.a[0]), srt, I, srt)(a.t, b.t))
        if op not in ('Add', 'Sub', 'Mult'):
            raise Unsupported('%s on abstract values' % op)
        if isinstance(a, IntV):
            a = self.abs_of_int(a, ty)
        if isinstance(b, IntV):
            b = self.abs_of_int(b, ty)
        return AbsV(ty.a[0], self.absop({'Add': 'add', 'Sub': 'sub', 'Mult': 'mul'}[op], [a, b]))

    def abs_of_int(self, v, ty):
        if ty.a[0] not in self.th.rings:
            raise Unsupported('integer as abstract value')
        return AbsV(ty.a[0], self.th.ring_int(ty.a[0], v.t))

    def as_seq(self, v, kind=None):
        if isinstance(v, TupV):
            ty = UNK
            for x in v.items:
                ty = self.th.join_ty(ty, x.ty)
            return self.th.seq_of([self.th.coerce(x, ty) for x in v.items], 'tuple', ty)
        if isinstance(v, OptV):
            return self.as_seq(self.need(v))
        if isinstance(v, UnionV):
            return self.as_seq(self.pick(v, True))
        return v

    def concat(self, a, b):
        if isinstance(a, EmptyV) and isinstance(b, EmptyV):
            return a
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) + len(b.items) <= 12:
                return TupV(a.items + b.items)
        ka = a.kind if hasattr(a, 'kind') else 'tuple'
        kb = b.kind if hasattr(b, 'kind') else 'tuple'
        if ka != kb:
            self.ob('concat-kinds', FALSE)
            raise Unsupported('concatenation of %s and %s' % (ka, kb))
        if isinstance(a, EmptyV):
            return b
        if isinstance(b, EmptyV):
            return a
        if isinstance(a, StrV):
            return StrV(None, self.th.fresh(self.th.sort(STR), 'str'))
        a, b = self.as_seq(a), self.as_seq(b)
        if not isinstance(a, SeqV) or not isinstance(b, SeqV):
            raise Unsupported('+ on %s and %s' % (a.ty, b.ty))
        ty = self.th.join_ty(a.ty, b.ty)
        a, b = self.th.coerce(a, ty), self.th.coerce(b, ty)
        if a.items is not None and b.items is not None:
            return self.th.seq_of(a.items + b.items, a.kind, ty.a[0])
        la = z3.simplify(a.len)
        if a.items is not None and not a.items:
            return b
        if b.items is not None and not b.items:
            return a

        def at(i):
            return self.th.vite(z3.simplify(i < la), a.at(i), b.at(sub(i, la)))
        r = SeqV(a.kind, ty.a[0], add(la, b.len), at)
        ma, mb = self.seq_mem(a), self.seq_mem(b)
        if ma is not None and mb is not None:
            r.mset = lambda y: disj([ma(y), mb(y)])
        return r

    # ---- comparison
    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        out = []
        k = 0
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            t = self.compare(op, left, right, n)
            out.append(t)
            self.guards.append(t)
            k += 1
            left = right
        for _ in range(k):
            self.guards.pop()
        return BoolV(conj(out))

    def compare(self, op, a, b, n=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, NoneV) or isinstance(a, NoneV):
                t = self.th.eq(a, b)
            elif isinstance(a, TypeV) and isinstance(b, TypeV) or isinstance(a, BoolV):
                t = self.th.eq(a, b)
            else:
                raise Unsupported('is')
            return neg(t) if isinstance(op, ast.IsNot) else t
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.equals(a, b)
            return neg(t) if isinstance(op, ast.NotEq) else t
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(b, a, n)
            return neg(t) if isinstance(op, ast.NotIn) else t
        a, b = self.need(a, n), self.need(b, n)
        if isinstance(a, ObjV):
            nm = {ast.Lt: '__lt__', ast.Gt: '__gt__'}.get(type(op))
            if nm:
                return self.th.truth(self.dunder(a, nm, [b]))
        if isinstance(a, (IntV, BoolV)) and isinstance(b, (IntV, BoolV)):
            x, y = self.th.reify(a, INT), self.th.reify(b, INT)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return self.lex(op, a.items, b.items)
        if isinstance(a, SetV) and isinstance(b, SetV) and isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            x, cs = self.th.boundvars(a.ety)
            return self.th.forall(cs, self.with_binders(cs, TRUE, lambda: implies(a.mem(x), b.mem(x))))
        raise Unsupported('comparison of %s and %s' % (a.ty, b.ty))

    def lex(self, op, xs, ys):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)):
            xs, ys = ys, xs
        if not xs:
            return z3.BoolVal(not strict)
        x, y = self.th.reify(xs[0], INT), self.th.reify(ys[0], INT)
        rest = self.lex(ast.Lt() if strict else ast.LtE(), xs[1:], ys[1:])
        return z3.Or(x < y, z3.And(x == y, rest))

    def equals(self, a, b):
        if isinstance(a, ObjV) and not self.spec:
            q = self.reg.classinfo.get(a.cls)
            mq = self.repo.method(q, '__eq__')
            if mq and not isinstance(b, NoneV):
                return self.th.truth(self.call_qual(mq, [a, b], {}))
        if isinstance(b, ObjV) and not isinstance(a, ObjV) and not self.spec:
            return self.equals(b, a)
        if isinstance(a, ObjV) != isinstance(b, ObjV):
            return FALSE
        if isinstance(a, AbsV) and isinstance(b, IntV):
            return self.th.eq(a, self.abs_of_int(b, a.ty))
        if isinstance(b, AbsV) and isinstance(a, IntV):
            return self.th.eq(b, self.abs_of_int(a, b.ty))
        if isinstance(b, DynTypeV):
            a, b = b, a
        if isinstance(a, DynTypeV) and isinstance(b, (ClassV, TypeV)):
            return disj([c for c, nm in a.alts if nm == self.tyname(b)])
        if isinstance(a, (ClassV, TypeV)) and isinstance(b, (ClassV, TypeV)):
            return z3.BoolVal(self.tyname(a) == self.tyname(b))
        a, b = self.mat_any(a), self.mat_any(b)
        return self.th.eq(a, b)

    def mat_any(self, v):
        if isinstance(v, (CompV, IterV)):
            return self.materialize(v, 'list')
        return v

    def contains(self, c, x, n=None):
        th = self.th
        if isinstance(c, EmptyV):
            return FALSE
        if isinstance(c, OptV):
            c = self.need(c, n)
        c = self.pick(c, True, n)
        if isinstance(c, SetV):
            if isinstance(x, OptV) and c.ety.k != 'opt':
                return conj([neg(x.none), c.mem(th.coerce(x.val, c.ety))])
            if isinstance(x, TupV) and c.ety.k == 'tup' and len(x.items) != len(c.ety.a):
                return FALSE
            return c.mem(th.coerce(x, c.ety))
        if isinstance(c, MapV):
            if isinstance(x, TupV) and c.kty.k == 'tup' and len(x.items) != len(c.kty.a):
                return FALSE
            return c.dom(th.coerce(x, c.kty))
        if isinstance(c, TupV):
            return disj([self.equals(x, i) for i in c.items])
        if isinstance(c, SeqV):
            if c.items is not None:
                return disj([self.equals(x, i) for i in c.items])
            m = self.seq_mem(c)
            if m is not None and x.ty == c.ety:
                return m(x)
            i = th.fresh(I, 'i')
            g = z3.And(0 <= i, i < c.len)
            return th.exists([i], z3.And(g, self.with_binders([i], g, lambda: self.equals(c.at(i), x))))
        if isinstance(c, IterV):
            if c.mem is not None:
                return c.mem(th.coerce(x, c.ety))
            if getattr(c, 'rng', None):
                a, b, s = c.rng
                xt = th.reify(x, INT)
                return z3.And(a <= xt, xt < b)
            return self.contains(self.materialize(c, 'list'), x, n)
        if isinstance(c, CompV):
            return self.contains(self.comp_set(c), x, n)
        if isinstance(c, ObjV):
            return th.truth(self.dunder(c, '__contains__', [x]))
        raise Unsupported('in %s' % c.ty)

    def seq_mem(self, c):
        """Membership in a sequence as a set, when it is represented: y -> formula, else None."""
        th = self.th
        if getattr(c, 'mset', None) is not None:
            return c.mset
        if c.items is not None:
            return lambda y: disj([th.eq(y, i) for i in c.items])
        if c.term is None:
            return None
        ty = T('list', c.ety)
        srt, es = th.sort(ty), th.sort(c.ety)
        if c.term.sort() != srt:
            return None
        key = ('elems', ty.name)
        if key not in th.memo:
            ln, at, rel, _ = th.fns[ty.name]
            el = z3.Function('elems_' + ty.name, srt, z3.ArraySort(es, B))
            pos = z3.Function('epos_' + ty.name, srt, es, I)
            th.memo[key] = el
            a, i, x = z3.Const('a!', srt), z3.Const('i!', I), z3.Const('x!', es)
            nm = {el.name()}
            # elems(a) = { a[i] : 0 <= i < len(a) }
            th.fact(z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < ln(a)), el(a)[at(a, i)]), patterns=[at(a, i)]), nm)
            th.fact(z3.ForAll([a, x], z3.Implies(el(a)[x], z3.And(0 <= pos(a, x), pos(a, x) < ln(a), at(a, pos(a, x)) == x)), patterns=[el(a)[x]]), nm)
        el = th.memo[key]
        return lambda y: z3.Select(el(c.term), th.reify(y, c.ety))

    def filter_elems(self, v, t):
        """The elements of a filtered sequence, once it is named by t: those the filter keeps."""
        th = self.th
        c = th.fresh(t.sort(), 'filtered')
        th.fact(c == t, {t.decl().name()})
        mem = self.seq_mem(SeqV(v.kind, v.ety, v.len, v.at, term=c))
        if mem is None:
            return
        y, ys = th.boundvars(v.ety)
        sv = th.binders
        th.binders = list(sv)
        try:
            rhs = self.with_binders(ys, TRUE, lambda: v.mset(y))
        finally:
            th.binders = sv
        lhs = mem(y)
        th.fact(z3.ForAll(ys, lhs == rhs, patterns=[lhs]), {c.decl().name()})

    # ---- subscripts
    def ev_Subscript(self, n, env):
        c = self.ev(n.value, env)
        c = self.need(c, n)
        if isinstance(n.slice, ast.Slice):
            return self.slice(c, n.slice, env, n)
        i = self.ev(n.slice, env)
        return self.index(c, i, n)

    def norm_index(self, i, L):
        if z3.is_int_value(i):
            return i if i.as_long() >= 0 else add(L, i)
        if self.spec or self.entails(i >= 0):
            return i
        if self.entails(i < 0):
            return add(L, i)
        return ite(i < 0, i + L, i)

    def index(self, c, i, n=None):
        th = self.th
        c = self.pick(c, True, n)
        if isinstance(c, TupV):
            i = self.need(i, n)
            k = z3.simplify(i.t)
            if z3.is_int_value(k):
                k = k.as_long()
                if not (-len(c.items) <= k < len(c.items)):
                    self.ob('index:%s' % self.src(n), FALSE)
                    if self.spec:
                        raise Unsupported('index out of range in contract')
                    raise Unsupported('constant index out of range')
                return c.items[k]
            c = self.as_seq(c)
        if isinstance(c, SeqV):
            i = self.need(i, n)
            it = th.reify(i, INT)
            if not self.spec:
                self.ob('index:%s' % self.src(n), z3.And(-c.len <= it, it < c.len))
            return c.at(self.norm_index(z3.simplify(it) if z3.is_int_value(z3.simplify(it)) else it, c.len))
        if isinstance(c, MapV):
            k = th.coerce(i, c.kty)
            if c.default is not None:
                # the read inserts the key; an augmented assignment stores it anyway
                if not self.spec and n is not getattr(self, 'aug_node', None) and not self.entails(c.dom(k)):
                    raise Unsupported('reading a defaultdict may insert a key: %s' % self.src(n))
                return th.vite(c.dom(k), c.val(k), c.default)
            if not self.spec:
                self.ob('key:%s' % self.src(n), c.dom(k))
            return c.val(k)
        if isinstance(c, ObjV):
            return self.dunder(c, '__getitem__', [i])
        if isinstance(c, EmptyV):
            self.ob('index:%s' % self.src(n), FALSE)
            raise Unsupported('index into an empty container')
        if isinstance(c, ClassV):
            raise Unsupported('subscript of class')
        raise Unsupported('index into %s' % c.ty)

    def slice(self, c, s, env, n=None):
        if s.step is not None:
            st = self.ev(s.step, env)
            if isinstance(st, IntV) and st.lit() == -1 and s.lower is None and s.upper is None:
                c = self.as_seq(c)
                return SeqV(c.kind, c.ety, c.len, lambda i: c.at(sub(sub(c.len, i), z3.IntVal(1))))
            raise Unsupported('slice step')
        if isinstance(c, EmptyV):
            return c
        lo = self.need(self.ev(s.lower, env), n) if s.lower is not None else None
        hi = self.need(self.ev(s.upper, env), n) if s.upper is not None else None
        if isinstance(c, TupV):
            ll = None if lo is None else lo.lit()
            hh = None if hi is None else hi.lit()
            if (lo is None or ll is not None) and (hi is None or hh is not None):
                items = c.items[ll:hh]
                return TupV(items) if items else EmptyV('tuple')
            c = self.as_seq(c)
        if isinstance(c, StrV):
            return StrV(None, self.th.fresh(self.th.sort(STR), 'str'))
        if not isinstance(c, SeqV):
            raise Unsupported('slice of %s' % c.ty)
        L = c.len

        def clamp(v):
            t = v.t
            if z3.is_int_value(t):
                if t.as_long() == 0:
                    return t
                if t.as_long() < 0:
                    r = add(L, t)
                    return r if self.entails(r >= 0) else ite(r >= 0, r, z3.IntVal(0))
                return t if self.entails(t <= L) else ite(t <= L, t, L)
            if not (self.entails(t >= 0)):
                t = ite(t < 0, ite(t + L < 0, z3.IntVal(0), t + L), t)
            return t if self.entails(t <= L) else ite(t <= L, t, L)
        a = clamp(lo) if lo is not None else z3.IntVal(0)
        b = clamp(hi) if hi is not None else L
        if c.items is not None and z3.is_int_value(a) and z3.is_int_value(z3.simplify(b)):
            its = c.items[a.as_long():z3.simplify(b).as_long()]
            return self.th.seq_of(its, c.kind, c.ety) if its else self.th.empty(c.ty)
        ln = sub(b, a)
        if not self.entails(ln >= 0):
            ln = ite(ln >= 0, ln, z3.IntVal(0))
        if lo is None and hi is None:
            return SeqV(c.kind, c.ety, c.len, c._at, term=c.term, items=c.items)
        r = SeqV(c.kind, c.ety, ln, lambda i: c.at(add(i, a)))
        return r

    # ---- attributes
    def ev_Attribute(self, n, env):
        v = self.ev(n.value, env)
        v = self.need(v, n)
        if isinstance(v, ObjV):
            if n.attr in v.fields:
                return v.fields[n.attr]
            if (v.cls, n.attr) in self.reg.ignored:
                return OpaqueV()
            if (v.cls, n.attr) in self.reg.fnattrs:
                return FuncV(self.reg.fnattrs[(v.cls, n.attr)])
            if n.attr == '__class__':
                return ClassV(self.reg.classinfo[v.cls])
            q = self.repo.method(self.reg.classinfo[v.cls], n.attr)
            if q is None:
                raise Unsupported('attribute %s' % n.attr)
            if self.repo.fns[q].kind == 'property':
                return self.call_qual(q, [v], {})
            if self.repo.fns[q].kind == 'classmethod':
                return FuncV(q, bound=ClassV(self.reg.classinfo[v.cls]))
            return FuncV(q, bound=v)
        if isinstance(v, ClassV):
            q = self.repo.method(v.cls, n.attr)
            if q:
                if self.repo.fns[q].kind == 'classmethod':
                    return FuncV(q, bound=v)
                return FuncV(q)
            mod, cn = v.cls.split('.')
            g = self.repo.globals[mod].get('%s.%s' % (cn, n.attr))
            if g is not None:
                sv = self.frame
                self.frame = Frame(v.cls, mod, v.cls)
                try:
                    # class-level names are visible without prefix in the class body
                    return self.ev(g, {k.split('.', 1)[1]: None for k in ()} | self.class_consts(mod, cn, n.attr))
                finally:
                    self.frame = sv
            if n.attr == '__class__':
                raise Unsupported('__class__ of class')
            raise Unsupported('class attribute %s.%s' % (v.cls, n.attr))
        if isinstance(v, ModV):
            return FuncV('%s.%s' % (v.name, n.attr))
        return FuncV('.' + n.attr, bound=v, node=n.value)

    def class_consts(self, mod, cn, upto):
        env = {}
        for k, g in self.repo.globals[mod].items():
            if k == '%s.%s' % (cn, upto):
                break
            if k.startswith(cn + '.') and isinstance(g, (ast.Constant, ast.BinOp, ast.UnaryOp)):
                env[k.split('.', 1)[1]] = self.ev(g, env)
        return env

    # ---- comprehensions
    def eager(self, n, env):
        """The first iterable of a comprehension is evaluated once, before everything else: calls of
        functions under contract in it are replaced by their results."""
        if self.spec or not self.obl:
            return n, env
        found = []

        class Rep(ast.NodeTransformer):
            def visit_Lambda(s, x):
                return x

            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

            def visit_Call(s, x):
                try:
                    f = self.ev(x.func, env) if isinstance(x.func, (ast.Name, ast.Attribute)) and isinstance(x.func, ast.Name) or isinstance(getattr(x.func, 'value', None), ast.Name) else None
                except Unsupported:
                    f = None
                cs = self.reg.contracts.get(f.qual, []) if isinstance(f, FuncV) else []
                if not cs or any(c.pure or c.macro or c.yields or c.yseq for c in cs):
                    return s.generic_visit(x)
                nm = '_eager%d_%d' % (x.lineno, x.col_offset)
                found.append((nm, x))
                return ast.copy_location(ast.Name(nm, ast.Load()), x)
        import copy
        it = Rep().visit(copy.deepcopy(n.generators[0].iter))
        if not found:
            return n, env
        env = dict(env)
        for nm, x in found:
            env[nm] = self.ev(x, env)
        n = copy.deepcopy(n)
        n.generators[0].iter = it
        return n, env

    def ev_ListComp(self, n, env):
        n, env = self.eager(n, env)
        self.check_comp(n, env)
        return self.materialize(CompV(n, dict(env)), 'list')

    def ev_GeneratorExp(self, n, env):
        n, env = self.eager(n, env)
        self.check_comp(n, env)
        return CompV(n, dict(env))

    def ev_SetComp(self, n, env):
        n, env = self.eager(n, env)
        self.check_comp(n, env)
        return self.comp_set(CompV(n, dict(env)))

    def ev_DictComp(self, n, env):
        n, env = self.eager(n, env)
        self.check_comp(n, env)
        return self.comp_dict(CompV(n, dict(env)))

    def ev_Lambda(self, n, env):
        return LambdaV(n, dict(env))

    def check_comp(self, n, env):
        """Obligations of evaluating the parts of a comprehension, once, on arbitrary elements."""
        if self.spec or not self.obl:
            return
        env = dict(env)
        k = 0
        try:
            for g in n.generators:
                it = self.iterable(self.ev(g.iter, env))
                if it is None:
                    return
                elem, guard, cs = self.open_iter(it)
                self.guards.append(guard)
                k += 1
                self.bind(g.target, elem, env)
                for c in g.ifs:
                    t = self.truth(self.ev(c, env))
                    self.guards.append(t)
                    k += 1
                    env = self.narrow(c, env, True)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, env)
                self.ev(n.value, env)
            else:
                self.ev(n.elt, env)
        finally:
            for _ in range(k):
                self.guards.pop()

    def iterable(self, v):
        """Normalise a value to an IterV (None when provably empty)."""
        v = self.pick(self.need(v), True)
        if isinstance(v, IterV):
            return v
        if isinstance(v, EmptyV):
            return None
        if isinstance(v, TupV):
            v = self.as_seq(v)
        if isinstance(v, SeqV):
            it = IterV(v.ety, length=v.len, at=v.at, kindname='seq')
            it.items = v.items
            it.of = v
            it.seq = v
            return it
        if isinstance(v, (SetV, MapV)):
            it = IterV(v.kty if isinstance(v, MapV) else v.ety, mem=v.dom if isinstance(v, MapV) else v.mem, kindname='dict' if isinstance(v, MapV) else 'set')
            it.setterm = self.keyset(v).term if isinstance(v, MapV) else v.term
            return it
        if isinstance(v, CompV):
            return self.comp_iter(v)
        if isinstance(v, ObjV):
            return self.iterable(self.dunder(v, '__iter__', []))
        raise Unsupported('iteration over %s' % v.ty)

    def open_iter(self, it):
        """(element, guard, constants) for an arbitrary element."""
        th = self.th
        if getattr(it, 'rng', None):
            a, b, s = it.rng
            x = th.fresh(I, 'x')
            if s == 1:
                return IntV(x), z3.And(a <= x, x < b), [x]
            if s == -1:
                return IntV(x), z3.And(b < x, x <= a), [x]
            k = th.fresh(I, 'k')
            return it.at(k), z3.And(0 <= k, k < it.len), [k]
        if it.mem is not None:
            x, cs = th.boundvars(it.ety)
            wrap = getattr(it, 'wrap', None)
            m = self.with_binders(cs, TRUE, lambda: it.mem(x))
            return (wrap(x) if wrap else x), m, cs
        i = th.fresh(I, 'k')
        return it.at(i), z3.And(0 <= i, i < it.len), [i]

    def bind(self, target, v, env):
        if isinstance(target, ast.Name):
            env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            v = self.need(v)
            if isinstance(v, SeqV):
                if not self.spec:
                    self.ob('unpack:%s' % self.src(target), v.len == len(target.elts))
                vals = [v.at(z3.IntVal(i)) for i in range(len(target.elts))]
            elif isinstance(v, TupV):
                if len(v.items) != len(target.elts):
                    self.ob('unpack:%s' % self.src(target), FALSE)
                    raise Unsupported('unpacking')
                vals = v.items
            else:
                raise Unsupported('unpacking %s' % v.ty)
            for t, x in zip(target.elts, vals):
                self.bind(t, x, env)
        else:
            raise Unsupported('target %s' % self.src(target))

    def quant_comp(self, comp, leaf, universal):
        """Fold all generators of comp into nested quantifiers around leaf(env)."""
        n, th = comp.node, self.th
        sv = (self.obl,)
        self.obl = False

        def go(gi, env):
            if gi == len(n.generators):
                return leaf(env)
            g = n.generators[gi]
            it = self.iterable(self.ev(g.iter, env))
            if it is None:
                return z3.BoolVal(universal)
            if getattr(it, 'items', None) is not None and len(it.items) <= 8:
                parts = []
                for x in it.items:
                    e = dict(env)
                    self.bind(g.target, x, e)
                    parts.append(ifs(g, e, gi, 0))
                return conj(parts) if universal else disj(parts)
            elem, guard, cs = self.open_iter(it)

            def inner():
                e = dict(env)
                self.bind(g.target, elem, e)
                return ifs(g, e, gi, 0)
            body = self.with_binders(cs, guard, inner)
            if universal:
                return th.forall(cs, implies(guard, body))
            return th.exists(cs, conj([guard, body]))

        def ifs(g, e, gi, k):
            if k == len(g.ifs):
                return go(gi + 1, e)
            c = self.truth(self.ev(g.ifs[k], e))
            self.guards.append(c)
            try:
                r = ifs(g, self.narrow(g.ifs[k], e, True), gi, k + 1)
            finally:
                self.guards.pop()
            return implies(c, r) if universal else conj([c, r])
        try:
            return go(0, dict(comp.env))
        finally:
            self.obl = sv[0]

    def elt_type(self, comp):
        """Type of the elements of a comprehension (evaluated on arbitrary elements)."""
        out = []
        saved = self.probe
        self.probe += 1

        def leaf(env):
            n = comp.node
            if isinstance(n, ast.DictComp):
                out.append((self.ev(n.key, env).ty, self.ev(n.value, env).ty))
            else:
                v = self.ev(n.elt, env)
                v = self.mat_any(v)
                out.append(v.ty)
            return FALSE
        try:
            self.quant_comp(comp, leaf, False)
        finally:
            self.probe = saved
        if not out:
            return None
        ty = out[0]
        for t in out[1:]:
            ty = self.th.join_ty(ty, t) if not isinstance(ty, tuple) else tuple(self.th.join_ty(a, b) for a, b in zip(ty, t))
        return ty

    def comp_set(self, comp):
        ty = self.elt_type(comp)
        if ty is None:
            return EmptyV('set')
        n = comp.node
        # identity over one source: {x for x in S if c}
        if len(n.generators) == 1 and not isinstance(n, ast.DictComp) and ast.dump(self.ctxless(n.elt)) == ast.dump(self.ctxless(n.generators[0].target)):
            g = n.generators[0]
            sv = self.obl
            self.obl = False
            try:
                src = self.iterable(self.ev(g.iter, comp.env))
            finally:
                self.obl = sv
            if src is not None and src.mem is not None and not getattr(src, 'wrap', None):
                def mem(y):
                    o, self.obl = self.obl, False
                    try:
                        e = dict(comp.env)
                        y = self.th.coerce(y, src.ety)
                        self.bind(g.target, y, e)
                        m = src.mem(y)
                        self.guards.append(m)
                        out = [m]
                        k = 1
                        for c in g.ifs:
                            t = self.truth(self.ev(c, e))
                            out.append(t)
                            self.guards.append(t)
                            k += 1
                        for _ in range(k):
                            self.guards.pop()
                        return conj(out)
                    finally:
                        self.obl = o
                return SetV(ty, mem)

        def mem(y):
            return self.exists_eq(comp, y, ty)
        return SetV(ty, mem)

    def ctxless(self, n):
        m = ast.parse(ast.unparse(n), mode='eval').body
        return m

    def exists_eq(self, comp, y, ty, extra=None):
        """exists generators: elt == y, with one-point elimination of solved binders."""
        n = comp.node
        f = self.quant_comp(comp, lambda env: self.eq_t(self.mat_any(self.ev(n.elt if not isinstance(n, ast.DictComp) else n.key, env)), y, ty), False)
        return one_point(f)

    def eq_t(self, a, b, ty):
        if ty.k in ('tuple', 'list') and self.entry is not None and getattr(self.entry, 'termeq', False) and not self.probe:
            return self.th.reify(a, ty) == self.th.reify(b, ty)
        return self.th.eq(self.th.coerce(a, ty), self.th.coerce(b, ty))

    def comp_dict(self, comp):
        n, th = comp.node, self.th
        tys = self.elt_type(comp)
        if tys is None:
            return EmptyV('dict')
        kt, vt = tys
        g = n.generators[0]
        key_is_target = False
        if len(n.generators) == 1:
            tgt = g.target
            if isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 and ast.unparse(tgt.elts[0]) == ast.unparse(n.key):
                key_is_target = 'items'
            elif ast.unparse(tgt) == ast.unparse(n.key):
                key_is_target = 'key'
        if key_is_target:
            sv = self.obl
            self.obl = False
            try:
                src = self.iterable(self.ev(g.iter, comp.env))
            finally:
                self.obl = sv
            wrap = getattr(src, 'wrap', None)
            if src.mem is not None and (key_is_target == 'key' and not wrap or key_is_target == 'items' and getattr(src, 'is_items', False)) \
                    or (key_is_target == 'key' and getattr(src, 'rng', None) and src.rng[2] == 1):
                def run(y, fn):
                    o, self.obl = self.obl, False
                    try:
                        e = dict(comp.env)
                        y = th.coerce(y, src.ety)
                        if getattr(src, 'rng', None):
                            m = z3.And(src.rng[0] <= y.t, y.t < src.rng[1])
                        else:
                            m = src.mem(y)
                        self.bind(g.target, wrap(y) if wrap else y, e)
                        self.guards.append(m)
                        k = 1
                        cs = [m]
                        for c in g.ifs:
                            t = self.truth(self.ev(c, e))
                            cs.append(t)
                            self.guards.append(t)
                            k += 1
                        try:
                            return fn(e, cs)
                        finally:
                            for _ in range(k):
                                self.guards.pop()
                    finally:
                        self.obl = o
                return MapV(kt, vt, lambda y: run(y, lambda e, cs: conj(cs)),
                            lambda y: run(y, lambda e, cs: th.coerce(self.ev(n.value, e), vt)))
        # general: a key is present when some iteration computes it, and its value is the one of some iteration that does
        # (the last, in fact: keys computed twice with different values are under-determined here)
        if th.binders or self.probe:
            raise Unsupported('dict comprehension with computed keys')
        val = th.freshfn([th.sort(kt)], th.sort(vt), 'compval')
        dom = lambda y: self.exists_eq(comp, y, kt)
        y, cs = th.boundvars(kt)
        yt = th.reify(y, kt)
        vy = val(yt)

        def defn():
            d = dom(y)
            f = self.quant_comp(comp, lambda env: conj([self.eq_t(self.mat_any(self.ev(n.key, env)), y, kt), self.eq_t(self.mat_any(self.ev(n.value, env)), th.lift(vy, vt), vt)]), False)
            return implies(d, one_point(f))
        body = self.with_binders(cs, TRUE, defn)
        th.fact(z3.ForAll(cs, body, patterns=[vy]), {val.name()})
        return MapV(kt, vt, dom, lambda y: th.lift(val(th.reify(th.coerce(y, kt), kt)), vt))

    def comp_iter(self, comp):
        """A generator expression as something to iterate over."""
        n = comp.node
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            sv = self.obl
            self.obl = False
            try:
                src = self.iterable(self.ev(g.iter, comp.env))
            finally:
                self.obl = sv
            if src is None:
                return None
            if src.mem is None:
                ty = self.elt_type(comp)

                def at(i):
                    if ty in (INT, BOOL) and not z3.is_const(i):
                        # evaluated at a generic index: the functions it introduces are shared by all indices
                        self.gi_depth = getattr(self, 'gi_depth', 0) + 1
                        gi = z3.Const('gi%d!' % self.gi_depth, I)
                        self.th.binders.append(gi)
                        try:
                            t = self.th.reify(at(gi), ty)
                        finally:
                            self.th.binders.pop()
                            self.gi_depth -= 1
                        return self.th.lift(z3.substitute(t, (gi, i)), ty)
                    o, self.obl = self.obl, False
                    rng = z3.And(0 <= i, i < src.len)
                    self.guards.append(rng)
                    try:
                        e = dict(comp.env)
                        self.bind(g.target, src.at(i), e)
                        v = self.mat_any(self.ev(n.elt, e))
                        return self.th.coerce(v, ty)
                    finally:
                        self.guards.pop()
                        self.obl = o
                it = IterV(ty, length=src.len, at=at, kindname='comp')
                if getattr(src, 'items', None) is not None:
                    it.items = [at(z3.IntVal(i)) for i in range(len(src.items))]
                return it
        s = self.comp_filter(comp)
        if s is not None:
            it = IterV(s.ety, length=s.len, at=s.at, kindname='seq')
            it.seq = s
            return it
        raise Unsupported('iteration over nested generator expression')

    def prefix_fn(self, comp, kind):
        """Prefix count/sum function of a one-generator indexed comprehension.

        cnt(0) = 0, cnt(k+1) = cnt(k) + (1 if cond(k) else 0)   [or + value]"""
        th, n = self.th, comp.node
        g = n.generators[0]
        sv = self.obl
        self.obl = False
        try:
            src = self.iterable(self.ev(g.iter, comp.env))
            if src is None:
                return None, None, None
            if src.mem is not None:
                return None, src, None

            def step(k):
                self.guards.append(z3.And(0 <= k, k < src.len))
                try:
                    e = dict(comp.env)
                    self.bind(g.target, src.at(k), e)
                    c = conj([self.truth(self.ev(x, e)) for x in g.ifs])
                    if kind == 'count':
                        return ite(c, z3.IntVal(1), z3.IntVal(0)), c, e
                    v = th.reify(self.ev(n.elt, e), INT)
                    return ite(c, v, z3.IntVal(0)), c, e
                finally:
                    self.guards.pop()
            self.prefix_depth = getattr(self, 'prefix_depth', 0) + 1
            gk = z3.Const('gp%d!' % self.prefix_depth, I)
            th.binders.append(gk)
            try:
                body = z3.simplify(step(gk)[0])
            finally:
                th.binders.pop()
                self.prefix_depth -= 1
            # closed under its free constants, so that equal bodies share one function
            bs = ordered_consts(body, gk)
            canon = [z3.Const('pc%d!%s' % (i, b.sort().name()), b.sort()) for i, b in enumerate(bs)]
            cbody = z3.simplify(z3.substitute(body, *zip(bs, canon)) if bs else body)
            key = ('prefix', kind, cbody.get_id())
            if key not in th.memo:
                th.keep.append(cbody)
                th.counter += 1
                f = z3.Function('%s!%d' % (kind, th.counter), *([b.sort() for b in bs] + [I, I]))
                th.memo[key] = f
                k = z3.Const('k!', I)
                nm = {f.name()}
                th.fact(th.close(canon, f(*canon, z3.IntVal(0)) == 0, [f(*canon, z3.IntVal(0))]), nm)
                # one step per term (g is f without the equation): the prover does not unfold for ever
                flow_ = z3.Function('%s_low!%d' % (kind, th.counter), *([b.sort() for b in bs] + [I, I]))
                th.fact(z3.ForAll(canon + [k], f(*canon, k) == flow_(*canon, k), patterns=[f(*canon, k)]), nm)
                th.fact(z3.ForAll(canon + [k], z3.Implies(0 < k, f(*canon, k) == flow_(*canon, k - 1) + z3.substitute(cbody, (gk, k - 1))), patterns=[f(*canon, k)]), nm)
                if kind == 'sum':
                    # SUM-EXT: prefix sums of pointwise equal summands agree (induction on the length)
                    fresh = [z3.Const('qc%d!%s' % (i, b.sort().name()), b.sort()) for i, b in enumerate(bs)]
                    for f2, canon2, body2, gk2 in th.memo.setdefault('sums', []) + [(f, fresh, z3.substitute(cbody, *zip(canon, fresh)) if bs else cbody, gk)]:
                        if f2 is f and not bs:
                            continue
                        if f2 is not f:
                            o2 = [z3.Const('qc%d!%s' % (i, b.sort().name()), b.sort()) for i, b in enumerate(canon2)]
                            body2 = z3.substitute(body2, *zip(canon2, o2)) if canon2 else body2
                            canon2 = o2
                        th.counter += 1
                        w = z3.Function('sumdiff!%d' % th.counter, *([b.sort() for b in canon + canon2] + [I, I]))
                        t = w(*canon, *canon2, k)
                        fk, fk2 = f(*canon, k), f2(*canon2, k)
                        th.fact(z3.ForAll(canon + canon2 + [k], z3.Or(fk == fk2, z3.And(0 <= t, t < k, z3.substitute(cbody, (gk, t)) != z3.substitute(body2, (gk2, t)))),
                                          patterns=[z3.MultiPattern(fk, fk2)]), th.AllOf({f.name(), f2.name()}))
                    th.memo['sums'].append((f, canon, cbody, gk))
                    # SUM-POS: a negative prefix sum has a negative summand (induction on the length)
                    w = z3.Function('sumneg!%d' % th.counter, *([b.sort() for b in canon] + [I, I]))
                    t = w(*canon, k)
                    th.fact(z3.ForAll(canon + [k], z3.Or(f(*canon, k) >= 0, z3.And(0 <= t, t < k, z3.substitute(cbody, (gk, t)) < 0)), patterns=[f(*canon, k)]), nm)
                if kind == 'count':
                    # 0 <= cnt(k) <= k: induction on k (library lemma PREFIX-COUNT)
                    th.fact(z3.ForAll(canon + [k], z3.Implies(0 <= k, z3.And(0 <= f(*canon, k), f(*canon, k) <= k)), patterns=[f(*canon, k)]), nm)
            f = th.memo[key]
            return (lambda k: f(*bs, k)), src, step
        finally:
            self.obl = sv

    def comp_filter(self, comp):
        """[elt for x in seq if cond] as a sequence, through the prefix-count function."""
        n, th = comp.node, self.th
        if len(n.generators) != 1:
            return None
        cnt, src, step = self.prefix_fn(comp, 'count')
        if cnt is None:
            return None
        if src.mem is not None:
            return None
        ty = self.elt_type(comp)
        L = src.len
        length = cnt(L)
        bs = [b for b in th.binders if b.get_id() in free_consts(length, {b.get_id(): b for b in th.binders})]
        key = ('filteridx', length.get_id())
        if key not in th.memo:
            th.keep.append(length)
            idx = z3.Function('idx!%d' % th.counter, *([b.sort() for b in bs] + [I, I]))
            th.counter += 1
            th.memo[key] = (idx, bs)
            nm = {idx.name()}
            j, k = z3.Const('j!', I), z3.Const('k!', I)
            ij = idx(*bs, j)
            sj = z3.And(0 <= j, j < length)
            sv, self.obl = self.obl, False
            th.binders.append(j)
            c = step(ij)[1]
            th.binders.pop()
            self.obl = sv
            # FILTER axioms (library lemma, proved in lemmas/Prefix.lean): idx enumerates, in order, the positions where cond holds
            th.fact(z3.ForAll(bs + [j], z3.Implies(sj, z3.And(0 <= ij, ij < L, cnt(ij) == j, c)), patterns=[ij]), nm)
            k1 = step(k)[1]
            th.fact(z3.ForAll(bs + [k], z3.Implies(z3.And(0 <= k, k < L, k1), z3.And(idx(*bs, cnt(k)) == k, cnt(k) < length)), patterns=[cnt(k)]), nm)
            j2 = z3.Const('j2!', I)
            th.fact(z3.ForAll(bs + [j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < length), ij < idx(*bs, j2)), patterns=[z3.MultiPattern(ij, idx(*bs, j2))]), nm)
        idx, bs2 = th.memo[key]

        def at(j):
            o, self.obl = self.obl, False
            k = idx(*bs, j)
            self.guards.append(z3.And(0 <= k, k < L))
            try:
                e = dict(comp.env)
                self.bind(n.generators[0].target, src.at(k), e)
                return th.coerce(self.mat_any(self.ev(n.elt, e)), ty)
            finally:
                self.guards.pop()
                self.obl = o
        r = SeqV('list', ty, length, at)
        r.filter_of = comp
        r.rank = cnt

        def fmem(y):
            return self.exists_eq(comp, y, ty)
        r.fmem = fmem
        r.mset = fmem
        g = n.generators[0]
        of = getattr(src, 'of', None)
        m = self.seq_mem(of) if of is not None else None
        if m is not None and ast.dump(self.ctxless(n.elt)) == ast.dump(self.ctxless(g.target)):
            def imem(y):
                o, self.obl = self.obl, False
                e = dict(comp.env)
                self.bind(g.target, y, e)
                out = [m(y)]
                self.guards.append(out[0])
                k = 1
                try:
                    for c in g.ifs:
                        t = self.truth(self.ev(c, e))
                        out.append(t)
                        self.guards.append(t)
                        k += 1
                finally:
                    for _ in range(k):
                        self.guards.pop()
                    self.obl = o
                return conj(out)
            r.mset = imem
        return r

    def materialize(self, v, kind):
        """list(v) / tuple(v) as a sequence value."""
        th = self.th
        if isinstance(v, EmptyV):
            return EmptyV(kind)
        if isinstance(v, OptV):
            v = self.need(v)
        if isinstance(v, TupV):
            if kind == 'tuple':
                return v
            v = self.as_seq(v)
        if isinstance(v, SeqV):
            if v.kind == kind:
                return v
            r = SeqV(kind, v.ety, v.len, v._at, term=v.term, items=v.items)
            r.mset = getattr(v, 'mset', None)
            return r
        if isinstance(v, CompV):
            n = v.node
            try:
                it = self.comp_iter(v)
                if it is None:
                    return EmptyV(kind)
                if getattr(it, 'seq', None) is not None:
                    return self.materialize(it.seq, kind)
                items = getattr(it, 'items', None)
                if items is not None and kind == 'tuple' and len(items) <= 8:
                    pass
                return SeqV(kind, it.ety, it.len, it.at, items=items)
            except Unsupported:
                pass
            ty = self.elt_type(v)
            if ty is None:
                return EmptyV(kind)
            return self.bag(SetV(ty, lambda y: self.exists_eq(v, y, ty)), kind, False)
        if isinstance(v, (SetV, MapV)):
            s = v if isinstance(v, SetV) else self.keyset(v)
            return self.bag(s, kind, True)
        if isinstance(v, IterV):
            if v.mem is None:
                return SeqV(kind, v.ety, v.len, v.at, items=getattr(v, 'items', None))
            if getattr(v, 'wrap', None):
                w = v.wrap
                x, cs = th.boundvars(v.ety)
                ty = w(x).ty

                def mem(y):
                    c = self.with_binders(cs, TRUE, lambda: conj([v.mem(x), self.eq_t(w(x), y, ty)]))
                    return one_point(th.exists(cs, c))
                return self.bag(SetV(ty, mem), kind, v.kindname != 'values')
            return self.bag(SetV(v.ety, v.mem), kind, True)
        raise Unsupported('%s(%s)' % (kind, v.ty))

    def bag(self, s, kind, distinct, det=None):
        """A sequence with the elements of a finite set in unspecified order: a new one at every
        use, unless det says what, besides the set, determines it (sorting)."""
        th = self.th
        ty = T(kind, s.ety)
        arr = th.reify(s, T('set', s.ety))
        if det is None:
            self.nbags = getattr(self, 'nbags', 0) + 1
        key = ('bag', arr.get_id(), distinct, det or self.nbags)
        bs = [b for b in th.binders if b.get_id() in free_consts(arr, {b.get_id(): b for b in th.binders})]
        if key not in th.memo:
            th.keep.append(arr)
            srt = th.sort(ty)
            if det == 'sorted' and not bs:
                # sorting distinct totally ordered elements: a function of the set
                t = z3.Function('sorted_' + ty.name, arr.sort(), srt)(arr)
            elif bs:
                t = th.freshfn([b.sort() for b in bs], srt, 'bag')(*bs)
            else:
                t = th.fresh(srt, 'bag')
            th.memo[key] = t
            ln, at, rel, _ = th.fns[ty.name]
            nm = {t.decl().name()}
            i, j = z3.Const('i!', I), z3.Const('j!', I)
            th.fact(z3.ForAll(bs + [i], z3.Implies(z3.And(0 <= i, i < ln(t)), z3.Select(arr, at(t, i))), patterns=[at(t, i)]), nm)
            pos = z3.Function('pos!%d' % th.counter, *([b.sort() for b in bs] + [th.sort(s.ety), I]))
            th.counter += 1
            x, cs = th.boundvars(s.ety)
            xt = th.reify(x, s.ety)
            p = pos(*bs, xt)
            th.fact(z3.ForAll(bs + cs, z3.Implies(z3.Select(arr, xt), z3.And(0 <= p, p < ln(t), at(t, p) == xt)), patterns=[z3.Select(arr, xt)]), nm)
            if distinct:
                th.fact(z3.ForAll(bs + [i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(t)), at(t, i) != at(t, j)), patterns=[z3.MultiPattern(at(t, i), at(t, j))]), nm)
            th.fact(th.close(bs, rel(t), [t]), nm)
        return th.lift(th.memo[key], ty)

    def keyset(self, m):
        t = m.term
        if t is None and m.ty.name in self.th.fns or t is None and self.spec:
            try:
                t = self.th.reify(m, m.ty)
            except Unsupported:
                t = None
        return SetV(m.kty, m.dom, term=None if t is None else self.th.fns[m.ty.name][0](t))

    def to_set(self, v):
        if isinstance(v, EmptyV):
            return EmptyV('set')
        if isinstance(v, SetV):
            return SetV(v.ety, v.mem, term=v.term)
        if isinstance(v, MapV):
            return self.keyset(v)
        if isinstance(v, CompV):
            return self.comp_set(v)
        if isinstance(v, IterV) and v.mem is not None and not getattr(v, 'wrap', None):
            return SetV(v.ety, v.mem)
        v = self.as_seq(self.mat_any(v))
        if isinstance(v, SeqV):
            if hasattr(v, 'fmem'):
                return SetV(v.ety, v.fmem)
            return SetV(v.ety, lambda y: self.contains(v, y))
        raise Unsupported('set(%s)' % v.ty)

    # ------------------------------------------------------------ calls
    def ev_Call(self, n, env):
        f = n.func
        # super().__init__ and similar are not in the subset
        fv = self.ev(f, env)
        if isinstance(fv, SpecFnV):
            return self.spec_call(fv.fn, n, env)
        if isinstance(fv, TypeV):
            return self.builtin(fv.t, n, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, TupV):
                    args += v.items
                    continue
                if isinstance(v, SeqV) and v.items is not None:
                    args += v.items
                    continue
                if isinstance(v, EmptyV):
                    continue
                v = self.mat_any(v)
                if isinstance(v, (SetV, MapV)):
                    v = self.materialize(v, 'tuple')
                if isinstance(v, SeqV) and a is n.args[-1]:
                    args.append(StarV(v))
                    continue
                raise Unsupported('starred argument')
            args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kwargs[k.arg] = self.ev(k.value, env)
        return self.apply(fv, args, kwargs, n, env)

    def apply(self, fv, args, kwargs, n=None, env=None):
        if isinstance(fv, FuncV):
            if fv.qual.startswith('.'):
                return self.value_method(fv.qual[1:], fv.bound, args, kwargs, n, env, fv.node)
            if fv.bound is not None:
                args = [fv.bound] + args
            return self.call_qual(fv.qual, args, kwargs, n)
        if isinstance(fv, ClassV):
            return self.construct(fv.cls, args, kwargs)
        if isinstance(fv, LambdaV):
            e = dict(fv.env)
            for p, a in zip(fv.node.args.args, args):
                e[p.arg] = a
            return self.ev(fv.node.body, e)
        if isinstance(fv, OptV):
            return self.apply(self.need(fv, n), args, kwargs, n, env)
        if isinstance(fv, UFuncV):
            return fv.fn(args)
        if isinstance(fv, ObjV):
            return self.dunder(fv, '__call__', args)
        if isinstance(fv, AbsV) and fv.name in self.reg.absfns:
            pts, rt = self.reg.absfns[fv.name]
            f = self.symfn('apply_' + fv.name, [fv.ty] + pts, rt)
            vs = [self.fit(a, t) for a, t in zip(args, pts)]
            if len(args) != len(pts) or any(v is None for v in vs):
                raise Unsupported('arguments of an abstract function')
            t = f(fv.t, *[self.th.reify(v, ty) for v, ty in zip(vs, pts)])
            if rt.k in ('tuple', 'list', 'dict', 'hdict') and ('absfn', fv.name) not in self.th.memo:
                self.th.memo[('absfn', fv.name)] = True
                cs = [z3.Const('q%d!' % i, self.th.sort(ty)) for i, ty in enumerate([fv.ty] + pts)]
                self.th.sort(rt)
                self.th.fact(z3.ForAll(cs, self.th.fns[rt.name][2](f(*cs)), patterns=[f(*cs)]), {f.name()})
            return self.th.lift(t, rt)
        raise Unsupported('call of %s' % type(fv).__name__)

    def construct(self, cls, args, kwargs):
        short = None
        cands = [c for c, q in self.reg.classinfo.items() if q == cls]
        # several models of one class: the one the contract under verification speaks of
        used = [t for t in (list(self.entry.params.values()) + [self.entry.returns] if self.entry is not None else []) if t in cands]
        short = (used + cands + [None])[0]
        if short is None:
            raise Unsupported('class %s has no object model' % cls)
        q = self.repo.method(cls, '__init__')
        obj = ObjV(short, {}, building=True)
        for c in sorted(self.reg.contracts.get(q, []), key=lambda c: c.returns not in used):
            fn = self.repo.fns[q]
            env = self.bind_args(fn, [obj] + args, kwargs)
            if fn.bad is None and self.matches(c, env) is not None:
                return self.call_qual(q, [obj] + args, kwargs, prefer=used)
        fields = self.inline(q, [obj] + args, kwargs, want_self=True)
        model = self.reg.classes[short]
        out = {}
        for f, t in model.items():
            if f not in fields:
                raise Unsupported('constructor of %s does not set %s' % (cls, f))
            out[f] = self.th.coerce(fields[f], t)
        return ObjV(short, out)

    def bind_args(self, fn, args, kwargs, drop_first=False):
        a = fn.node.args
        if a.kwonlyargs or a.posonlyargs:
            raise Unsupported('signature of %s' % fn.qual)
        names = [x.arg for x in a.args]
        env = {}
        star = None
        if args and isinstance(args[-1], StarV):
            star, args = args[-1].seq, args[:-1]
            if not a.vararg or len(args) < len(names):
                raise Unsupported('starred argument for %s' % fn.qual)
        if len(args) > len(names) and not a.vararg:
            self.ob('arity:%s' % fn.qual, FALSE)
            raise Unsupported('too many arguments for %s' % fn.qual)
        for nm, v in zip(names, args):
            env[nm] = v
        if a.vararg:
            rest = args[len(names):]
            env[a.vararg.arg] = TupV(rest) if rest else EmptyV('tuple')
            if star is not None:
                t = SeqV('tuple', star.ety, star.len, star._at, term=star.term, items=star.items)
                env[a.vararg.arg] = self.concat(env[a.vararg.arg], t) if rest else t
        extra = {}
        for k, v in kwargs.items():
            if k not in names and a.kwarg:
                extra[k] = v
                continue
            if k not in names or k in env:
                raise Unsupported('keyword %s of %s' % (k, fn.qual))
            env[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = KwV(extra)
        nd = len(a.defaults)
        for i, nm in enumerate(names):
            if nm not in env:
                j = i - (len(names) - nd)
                if j < 0:
                    self.ob('arity:%s' % fn.qual, FALSE)
                    raise Unsupported('missing argument %s of %s' % (nm, fn.qual))
                sv = self.frame
                self.frame = Frame(fn.qual, fn.mod, fn.cls)
                env[nm] = self.ev(a.defaults[j], {})
                self.frame = sv
        return env

    def matches(self, c, env):
        """Do the argument values fit contract c's parameter types?"""
        out = {}
        if not self.defaults_hold(c, env):
            return None
        for p, t in c.params.items():
            if p not in env:
                return None
            v = env[p]
            if t == '?':
                out[p] = OpaqueV()
                continue
            if t.startswith('{'):
                want = self.kw_param(t)
                if not isinstance(v, KwV) or set(want.items) != set(v.items):
                    return None
                for k, w in want.items.items():
                    x = v.items[k]
                    if not (isinstance(w, NoneV) and isinstance(x, NoneV) or isinstance(w, BoolV) and isinstance(x, BoolV) and z3.simplify(x.t).eq(z3.simplify(w.t))
                            or isinstance(w, IntV) and isinstance(x, IntV) and x.lit() is not None and x.lit() == w.lit()):
                        return None
                out[p] = v
                continue
            v = self.mat_any(v) if isinstance(v, (CompV,)) else v
            if t.startswith('='):
                want = t[1:]
                if want == 'None':
                    if not isinstance(v, NoneV):
                        return None
                elif want in ('True', 'False'):
                    if not (isinstance(v, BoolV) and z3.is_true(z3.simplify(v.t)) == (want == 'True') and (z3.is_true(z3.simplify(v.t)) or z3.is_false(z3.simplify(v.t)))):
                        return None
                elif want == '()':
                    if not (isinstance(v, EmptyV) and v.kind == 'tuple'):
                        return None
                else:
                    if not (isinstance(v, IntV) and v.lit() is not None and str(v.lit()) == want):
                        return None
                out[p] = v
                continue
            ty = parse_type(t)
            if ty.k == 'fn':
                if not isinstance(v, (FuncV, LambdaV, UFuncV)):
                    return None
                out[p] = v
                continue
            w = self.fit(v, ty)
            if w is None:
                return None
            out[p] = w
        return out

    def defaults_hold(self, c, env):
        """The parameters the contract does not mention have their default values."""
        fn = self.repo.fns.get(c.qual)
        if fn is None:
            return True
        a = fn.node.args
        names = [x.arg for x in a.args]
        d = len(names) - len(a.defaults)
        if a.vararg and a.vararg.arg not in c.params and not isinstance(env.get(a.vararg.arg), (EmptyV, type(None))):
            return False
        if a.kwarg and a.kwarg.arg not in c.params and a.kwarg.arg in env and env[a.kwarg.arg].items:
            return False
        for i, p in enumerate(names):
            if p in c.params or p not in env or (i == 0 and (fn.kind == 'classmethod' or fn.node.name == '__init__')):
                continue
            if i < d:
                return False
            v, w = env[p], a.defaults[i - d]
            if isinstance(v, OptV) and z3.is_true(z3.simplify(v.none)):
                v = NoneV()
            if isinstance(w, ast.Constant):
                if w.value is None:
                    ok = isinstance(v, NoneV)
                elif isinstance(w.value, bool):
                    t = z3.simplify(v.t) if isinstance(v, BoolV) else None
                    ok = t is not None and (z3.is_true(t) if w.value else z3.is_false(t))
                elif isinstance(w.value, int):
                    ok = isinstance(v, IntV) and v.lit() == w.value
                else:
                    ok = True
                if not ok:
                    return False
            elif isinstance(w, (ast.Tuple, ast.List, ast.Dict)) and not getattr(w, 'elts', None) and not getattr(w, 'keys', None):
                if not isinstance(v, EmptyV):
                    return False
        return True

    def fit(self, v, ty):
        k = ty.k
        if isinstance(v, OptV) and k != 'opt':
            # only if provably not None
            if self.spec or self.entails(neg(v.none)):
                return self.fit(v.val, ty)
            return None
        if k == 'opt':
            if isinstance(v, NoneV):
                return self.th.coerce(v, ty)
            if isinstance(v, OptV):
                w = self.fit(v.val, ty.a[0])
                return None if w is None else OptV(v.none, w)
            w = self.fit(v, ty.a[0])
            return None if w is None else OptV(FALSE, w)
        if k == 'int':
            return v if isinstance(v, IntV) else (self.th.coerce(v, INT) if isinstance(v, BoolV) else None)
        if k == 'bool':
            return v if isinstance(v, BoolV) else None
        if k == 'none':
            return v if isinstance(v, NoneV) else None
        if k == 'str':
            return v if isinstance(v, StrV) else None
        if k == 'union':
            if isinstance(v, UnionV):
                return v if v.tys == ty.a else None
            for i, t in enumerate(ty.a):
                w = self.fit(v, t)
                if w is not None:
                    return self.th.coerce(w, ty)
            return None
        if isinstance(v, UnionV):
            return None
        if k == 'obj':
            return v if isinstance(v, ObjV) and v.cls == ty.a[0] else None
        if k == 'abs':
            if isinstance(v, IntV) and self.spec and ty.a[0] in self.th.rings:
                return self.th.coerce(v, ty)
            return v if isinstance(v, AbsV) and v.name == ty.a[0] else None
        if isinstance(v, EmptyV):
            if v.kind == k or (v.kind, k) in (('dict', 'hdict'),):
                return self.th.coerce(v, ty)
            return None
        if k == 'set' and getattr(v, 'lit', None) and v.ety != ty.a[0]:
            items = [self.fit(x, ty.a[0]) for x in v.lit]
            if any(x is None for x in items):
                return None
            return SetV(ty.a[0], lambda x: disj([self.th.eq(x, i) for i in items]))
        if k in ('tuple', 'list'):
            if isinstance(v, TupV) and k == 'tuple':
                if ty.a[0].k in ('tup', 'tuple', 'int') or True:
                    items = [self.fit(x, ty.a[0]) for x in v.items]
                    if any(x is None for x in items):
                        return None
                    return self.th.seq_of(items, 'tuple', ty.a[0])
            if isinstance(v, SeqV) and v.kind == k:
                try:
                    j = self.th.join_ty(v.ety, ty.a[0])
                except Unsupported:
                    return None
                return v if v.ety == ty.a[0] else (self.th.coerce(v, ty) if j == ty.a[0] else None)
            return None
        if k == 'tup':
            if isinstance(v, TupV) and len(v.items) == len(ty.a):
                items = [self.fit(x, t) for x, t in zip(v.items, ty.a)]
                return None if any(x is None for x in items) else TupV(items)
            return None
        if k == 'set':
            return v if isinstance(v, SetV) and v.ety == ty.a[0] else None
        if k in ('dict', 'hdict') and isinstance(v, MapV) and v.lit is not None and (v.kty != ty.a[0] or v.vty != ty.a[1]) and v.lit[0]:
            # integers are elements of the ring of coefficients
            ring = ty.a[1].k == 'abs' and ty.a[1].a[0] in self.th.rings
            ks, vs = [self.fit(x, ty.a[0]) for x in v.lit[0]], [self.th.coerce(x, ty.a[1]) if ring and isinstance(x, IntV) else self.fit(x, ty.a[1]) for x in v.lit[1]]
            if any(x is None for x in ks + vs):
                return None
            return self.th.map_lit(ks, vs, ty.a[0], ty.a[1], v.hd)
        if k == 'dict':
            return v if isinstance(v, MapV) and v.kty == ty.a[0] and v.vty == ty.a[1] else None
        if k == 'hdict':
            return v if isinstance(v, MapV) and v.hd and v.kty == ty.a[0] and v.vty == ty.a[1] else None
        return None

    def call_qual(self, q, args, kwargs, n=None, prefer=()):
        fn = self.repo.fns.get(q)
        if fn is None:
            return self.external(q, args, kwargs, n)
        if fn.bad:
            raise Unsupported('%s: %s' % (q, fn.bad))
        self.callees.add(q)
        if not self.spec and self.obl and self.frame is not None and self.st is not None and q in self.repo.memo_reach:
            me = self.repo.fns.get(self.frame.qual)
            if me is not None and me.memo and me.node.name != '__init__':
                self.memo_exit(me, self.st, 'memo-invariant at call of %s' % q)
        cs = self.reg.contracts.get(q, [])
        env = self.bind_args(fn, args, kwargs)
        for c in sorted(cs, key=lambda c: c.returns not in prefer) if prefer else cs:
            m = self.matches(c, env)
            if m is not None:
                e = dict(env)
                e.update(m)
                return self.call_contract(fn, c, e, n)
        if cs and not fn.is_gen and self.recursive(q):
            raise Unsupported('no contract variant of %s matches (%s)' % (q, ', '.join(str(v.ty) for v in args)))
        if self.spec and not cs:
            raise Unsupported('contract expression calls %s, which has no contract' % q)
        return self.inline(q, args, kwargs)

    def memo_enter(self, fn, st):
        """Caching attributes of self: None, or a value that satisfies their invariant."""
        me = st.env[fn.node.args.args[0].arg] if fn.memo else None
        for a, (ty, inv) in sorted(fn.memo.items()):
            v = self.th.havoc(ty, 'memo' + a)
            st.env['memo' + a] = v
            st.assume(implies(neg(v.none), self.memo_inv(inv, me, v.val)), 'f')

    def memo_inv(self, inv, me, v):
        e = {}
        self.bind_lambda(inv, [me, v], e)
        return self.spec_bool(inv.body, e)

    def memo_exit(self, fn, st, what, me=None):
        me = me or (st.env[fn.node.args.args[0].arg] if fn.memo else None)
        for a, (ty, inv) in sorted(fn.memo.items()):
            v = st.env.get('memo' + a)
            if v is None or isinstance(v, NoneV):
                continue
            w = self.fit(v, ty)
            if w is None:
                self.ob('%s: type of %s' % (what, a), FALSE, st)
                continue
            sv, self.st = self.st, st
            self.ob('%s: %s' % (what, a), implies(neg(w.none), self.memo_inv(inv, me, w.val)), st)
            self.st = sv

    def recursive(self, q):
        return self.entry is not None and self.entry.qual == q

    def call_contract(self, fn, c, env, n=None):
        th = self.th
        fr = Frame(c.qual, fn.mod, fn.cls, c)
        label = 'call:%s' % c.name.split('.', 1)[1]
        envq = {k: v for k, v in env.items()}
        # captured variables of a nested function
        for cap in c.captures:
            v = None
            if self.st is not None and cap in self.st.env:
                v = self.st.env[cap]
            elif self.frame and self.frame.outer_env and cap in self.frame.outer_env:
                v = self.frame.outer_env[cap]
            if v is None and cap in self.old_env:
                v = self.old_env[cap]
            if v is None:
                raise Unsupported('captured %s' % cap)
            envq[cap] = self.fit(v, parse_type(c.captures[cap])) or v
        if self.obl and not self.spec and self.entry is not None and self.entry.calls and self.st is not None and not th.binders:
            hs = self.entry.calls.get(fn.node.name, [])
            if hs:
                he = dict(self.st.env)
                he.update({'arg_' + k: v for k, v in envq.items()})
                self.run_hints(hs, self.st, he, 'at ' + label, self.entry_frame)
        if self.obl and not self.spec:
            for i, r in enumerate(c.requires):
                self.ob('%s/requires[%d]' % (label, i), self.spec_bool(r, envq, fr))
            if self.entry is not None and (c.qual == self.entry.qual or (c.group and c.group == self.entry.group)):
                if c.partial:
                    self.assumptions.add('partial correctness: termination of %s is not proved' % c.name)
                elif c.dec is None or self.entry.dec is None:
                    self.notes.append('recursion of %s without a decreases clause' % c.name)
                    self.ob('%s/decreases' % label, FALSE)
                else:
                    d1 = self.measure(c.dec, envq, fr)
                    d0 = self.entry_measure
                    self.ob('%s/decreases' % label, self.lt_measure(d1, d0))
            if c.raises:
                rc = self.spec_bool(c.raises, envq, fr)
                if self.raise_stack is None and self.entry is not None and self.entry.raises:
                    # the exception passes through: it must be one the caller announces
                    own = self.spec_bool(self.entry.raises, dict(self.old_env), self.entry_frame)
                    self.ob('%s/raises' % label, implies(rc, own))
                    if not th.binders:
                        self.st.assume(implies(conj(self.guards), neg(rc)), 'c')
                elif self.raise_stack is None:
                    self.ob('%s/no-exception' % label, neg(rc))
                else:
                    self.raise_stack.append(conj(list(self.guards) + [rc]))
                    self.st.assume(implies(conj(self.guards), neg(rc)), 'c')
            if c.partial and self.entry is not None and not self.entry.partial:
                self.ob('%s/may-not-return' % label, FALSE)
        if c.trusted:
            self.assumptions.add('trusted contract: %s' % c.name)
        if c.yields is not None or c.yseq is not None:
            if c.yseq is not None:
                s = self.spec_eval(c.yseq, envq, fr)
                return self.iterable(self.mat_any(s)) or EmptyV('list')
            ety = parse_type(c.ytype)
            lam = ast.parse(c.yields, mode='eval').body

            def mem(x):
                sv = self.obl
                e = dict(envq)
                self.bind_lambda(lam, [x], e)
                return self.spec_bool(lam.body, e, fr)
            it = IterV(ety, mem=mem, kindname='gen')
            it.distinct = c.ydistinct
            return it
        if c.macro is not None:
            v = self.spec_eval(c.macro, envq, fr)
            v = self.mat_any(v)
            rty = parse_type(c.returns) if c.returns else None
            if rty is not None:
                v = self.th.coerce(v, rty)
                if isinstance(v, SeqV) and v.kind != rty.k:
                    v = SeqV(rty.k, v.ety, v.len, v._at, term=v.term, items=v.items)
            return v
        rty = parse_type(c.returns)
        if c.pure:
            pts = [(p, parse_type(t)) for p, t in list(c.params.items()) + list(c.captures.items()) if not t.startswith('=') and parse_type(t).k != 'fn']
            f = self.symfn('fn_' + c.name, [t for _, t in pts], rty)
            targs = [th.reify(envq[p], t) for p, t in pts]
            term = f(*targs) if targs else z3.Const('fn_' + c.name, th.sort(rty))
            v = th.lift(term, rty)
            self.pure_axiom(c, fr, pts, f, rty)
            if rty.k in ('tuple', 'list', 'dict', 'hdict') and not th.binders:
                th.mark(term, rty)
            if self.st is not None and not th.binders and not self.spec:
                e = dict(envq)
                e['result'] = v
                for r in c.ensures:
                    self.st.assume(implies(conj(self.guards), self.spec_bool(r, e, fr)), 'f')
            return v
        if not self.obl and not self.spec and not self.probe or self.spec:
            raise Unsupported('contract of %s is relational (not usable under a binder)' % c.name)
        v = th.havoc(rty, 'r_' + fn.node.name)
        e = dict(envq)
        e['result'] = v
        for r in c.ensures:
            self.st.assume(implies(conj(self.guards), self.spec_bool(r, e, fr)), 'f')
        v.is_fresh = c.fresh and not fn.cached
        return v

    def bind_lambda(self, lam, vals, env):
        ps = [a.arg for a in lam.args.args]
        if len(ps) == 1:
            env[ps[0]] = vals[0]
        elif len(vals) == 1 and isinstance(vals[0], TupV):
            for p, v in zip(ps, vals[0].items):
                env[p] = v
        else:
            for p, v in zip(ps, vals):
                env[p] = v

    def measure(self, dec, env, fr):
        v = self.spec_eval(dec, env, fr)
        if isinstance(v, TupV):
            return [self.th.reify(x, INT) for x in v.items]
        return [self.th.reify(v, INT)]

    def lt_measure(self, a, b):
        """a < b lexicographically, bounded below by 0."""
        if len(a) != len(b):
            return FALSE
        if not a:
            return FALSE
        return z3.Or(z3.And(0 <= a[0], a[0] < b[0]), z3.And(a[0] == b[0], self.lt_measure(a[1:], b[1:]))) if len(a) > 1 else z3.And(0 <= a[0], a[0] < b[0])

    def symfn(self, name, tys, rty):
        if name not in self.symfns:
            self.symfns[name] = z3.Function(name, *[self.th.sort(t) for t in tys], self.th.sort(rty)) if tys else None
        return self.symfns[name]

    def pure_axiom(self, c, fr, pts, f, rty):
        """forall args: requires => ensures(f(args)), once per pure contract."""
        if c.name in self.pure_axioms or not pts:
            return
        self.pure_axioms[c.name] = True
        th = self.th
        sv_b, th.binders = th.binders, []
        sv_g, self.guards = self.guards, []
        sv_st, self.st = self.st, None
        try:
            env = {}
            cs = []
            for p, t in c.params.items():
                if t.startswith('='):
                    env[p] = self.const_param(t[1:])
            if self.repo.fns[c.qual].kind == 'classmethod':
                env['cls'] = ClassV(self.repo.fns[c.qual].cls)
            for p, t in pts:
                x = th.fresh(th.sort(t), 'p_' + p)
                cs.append(x)
                env[p] = th.lift(x, t)
            term = f(*cs)
            env['result'] = th.lift(term, rty)
            th.binders.extend(cs)
            req = conj([self.spec_bool(r, env, fr) for r in c.requires])
            ens = conj([self.spec_bool(r, env, fr) for r in c.ensures])
            if self.entry is not None and (c.qual == self.entry.qual or (c.group and c.group == self.entry.group)):
                # the induction hypothesis of a recursive function: smaller arguments only
                if c.dec is None or getattr(self, 'entry_measure', None) is None:
                    raise Unsupported('recursive use of %s without a decreases clause' % c.name)
                req = conj([req, self.lt_measure(self.measure(c.dec, env, fr), self.entry_measure)])
            th.fact(z3.ForAll(cs, z3.Implies(req, ens), patterns=[term]), {f.name()})
            if rty.k in ('tuple', 'list', 'dict', 'hdict'):
                th.fact(z3.ForAll(cs, th.fns[rty.name][2](term), patterns=[term]), {f.name()})
        finally:
            th.binders, self.guards, self.st = sv_b, sv_g, sv_st

    def const_param(self, s):
        if s == 'None':
            return NoneV()
        if s in ('True', 'False'):
            return BoolV(s == 'True')
        if s == '()':
            return EmptyV('tuple')
        return IntV(int(s))

    def kw_param(self, t):
        """'{name=value, ...}': exactly these keyword arguments."""
        out = {}
        for part in t.strip('{} ').split(','):
            if part.strip():
                k, _, v = part.partition('=')
                out[k.strip()] = self.const_param(v.strip())
        return KwV(out)

    # ---- inlining
    def inline(self, q, args, kwargs, want_self=False):
        fn = self.repo.fns[q]
        if fn.bad:
            raise Unsupported('%s: %s' % (q, fn.bad))
        if self.depth > self.MAXDEPTH:
            raise Unsupported('inlining depth at %s' % q)
        if fn.is_gen:
            raise Unsupported('generator %s has no contract' % q)
        if fn.memo and fn.node.name != '__init__':
            raise Unsupported('%s uses caching attributes and has no contract' % q)
        self.inlined.add(q)
        env = self.bind_args(fn, args, kwargs)
        outer = None
        if fn.outer:
            outer = dict(self.frame.outer_env or {}) if self.frame else {}
            if self.st is not None and self.frame and (self.frame.qual == fn.outer or self.frame.qual.startswith(fn.outer)):
                o2 = dict(self.st.env)
                outer.update(o2)
        sv_frame, sv_st = self.frame, self.st
        self.frame = Frame(q, fn.mod, fn.cls, None, outer)
        base = self.st.pc if self.st is not None else []
        st = St(env, list(base), set(p for p in env if getattr(env[p], 'building', False)))
        self.depth += 1
        ng = len(self.guards)
        try:
            outs = self.exec_block(fn.node.body, st)
        finally:
            self.depth -= 1
            self.frame, self.st = sv_frame, sv_st
            del self.guards[ng:]
        rets = []
        for kind, s, v in outs:
            if kind == 'next':
                v = NoneV()
            elif kind == 'raise':
                g, self.guards = self.guards, []
                self.ob('raise-unreachable:%s' % q, FALSE, s)
                self.guards = g
                continue
            elif kind != 'return':
                raise Unsupported('control flow in inlined %s' % q)
            if want_self:
                first = fn.node.args.args[0].arg
                v = s.env[first]
                for a in fn.memo:
                    if not isinstance(s.env.get('memo' + a), NoneV):
                        raise Unsupported('constructor fills the cache %s' % a)
            rets.append((s, v))
        if not rets:
            raise Unsupported('inlined %s never returns' % q)
        if len(rets) == 1:
            s, v = rets[0]
            if self.st is not None:
                self.st.pc = s.pc if not self.guards else self.st.pc + [(k, implies(conj(self.guards), t)) for k, t in s.pc[len(base):]]
            if want_self:
                return v.fields
            return v
        if want_self:
            raise Unsupported('branching constructor %s' % q)
        conds, facts = [], []
        for s, v in rets:
            new = s.pc[len(base):]
            c = conj([t for k, t in new if k == 'c'])
            conds.append(c)
            for k, t in new:
                if k == 'f':
                    facts.append(implies(c, t))
        r = rets[-1][1]
        for (s, v), c in reversed(list(zip(rets[:-1], conds[:-1]))):
            r = self.th.vite(c, v, r)
        if self.st is not None:
            g = conj(self.guards)
            for t in facts:
                self.st.assume(implies(g, t), 'f')
            self.st.assume(implies(g, disj(conds)), 'f')
        return r

    # ---- external / builtin
    def external(self, q, args, kwargs, n):
        if q == 'itertools.combinations':
            raise Unsupported('itertools.combinations')
        raise Unsupported('external %s' % q)

    def builtin(self, name, n, env):
        th = self.th
        A = n.args
        if name in ('Exception', 'TypeError', 'ValueError', 'NotImplementedError'):
            return StrV(name)
        if name == 'print':
            for a in A:
                self.ev(a, env)
            return NoneV()
        if name in ('str', 'repr'):
            for a in A:
                self.ev(a, env)
            return StrV(None, th.fresh(th.sort(STR), 'str'))
        if name == 'len':
            v = self.need(self.ev(A[0], env), n)
            return self.length(v)
        if name in ('any', 'all'):
            v = self.ev(A[0], env)
            uni = name == 'all'
            if isinstance(v, CompV):
                return BoolV(self.quant_comp(v, lambda e: self.truth(self.ev(v.node.elt, e)), uni))
            it = self.iterable(v)
            if it is None:
                return BoolV(uni)
            if getattr(it, 'items', None) is not None:
                ts = [self.truth(x) for x in it.items]
                return BoolV(conj(ts) if uni else disj(ts))
            elem, guard, cs = self.open_iter(it)
            b = self.with_binders(cs, guard, lambda: self.truth(elem))
            return BoolV(th.forall(cs, implies(guard, b)) if uni else th.exists(cs, conj([guard, b])))
        if name == 'range':
            vs = [self.need(self.ev(a, env), n) for a in A]
            a, b, s = (IntV(0), vs[0], 1) if len(vs) == 1 else (vs[0], vs[1], 1) if len(vs) == 2 else (vs[0], vs[1], vs[2].lit())
            if s not in (1, -1, 2, -2):
                raise Unsupported('range step')
            at, bt = a.t, b.t
            d = sub(bt, at) if s > 0 else sub(at, bt)
            if abs(s) == 2:
                d = (d + 1) / 2
            ln = d if self.entails(d >= 0) else ite(d >= 0, d, z3.IntVal(0))
            it = IterV(INT, length=ln, at=lambda i: IntV(add(at, i if s == 1 else i * s if s != -1 else negi(i))), kindname='range')
            it.rng = (at, bt, s)
            z = z3.simplify(ln)
            if z3.is_int_value(z) and z.as_long() <= 8:
                it.items = [IntV(z3.simplify(at + s * i)) for i in range(z.as_long())]
            return it
        if name == 'enumerate':
            it = self.iterable(self.ev(A[0], env))
            start = self.ev(A[1], env).t if len(A) > 1 else z3.IntVal(0)
            if it is None:
                return EmptyV('list')
            if it.mem is not None:
                raise Unsupported('enumerate over an unordered container')
            r = IterV(T('tup', INT, it.ety), length=it.len, at=lambda i: TupV([IntV(add(i, start)), it.at(i)]), kindname='enumerate')
            if getattr(it, 'items', None) is not None:
                r.items = [r.at(z3.IntVal(i)) for i in range(len(it.items))]
            return r
        if name == 'zip':
            its = [self.iterable(self.ev(a, env)) for a in A]
            if any(i is None for i in its):
                return EmptyV('list')
            if any(i.mem is not None for i in its):
                raise Unsupported('zip over unordered')
            L = its[0].len
            for i in its[1:]:
                if not L.eq(i.len):
                    L = ite(L <= i.len, L, i.len)
            return IterV(T('tup', *[i.ety for i in its]), length=L, at=lambda k: TupV([i.at(k) for i in its]), kindname='zip')
        if name in ('tuple', 'list'):
            if not A:
                return EmptyV(name)
            v = self.ev(A[0], env)
            r = self.materialize(v, name)
            if isinstance(r, SeqV) and r.kind != name:
                r = SeqV(name, r.ety, r.len, r._at, term=r.term, items=r.items)
            if isinstance(r, EmptyV):
                r = EmptyV(name)
            return r
        if name in ('set', 'frozenset'):
            if not A:
                return EmptyV('set')
            return self.to_set(self.need(self.ev(A[0], env), n))
        if name in ('dict', 'HashableDict'):
            if not A:
                return EmptyV('hdict' if name == 'HashableDict' else 'dict')
            v = self.ev(A[0], env)
            if isinstance(v, EmptyV):
                return EmptyV('hdict' if name == 'HashableDict' else 'dict')
            if isinstance(v, MapV):
                m = MapV(v.kty, v.vty, v.dom, v.val, term=v.term, hd=(name == 'HashableDict'))
                m.lit = v.lit
                return m
            raise Unsupported('dict(%s)' % v.ty)
        if name == 'defaultdict':
            v = self.ev(A[0], env)
            if isinstance(v, TypeV) and v.t == 'int':
                e = EmptyV('dict')
                e.default = IntV(0)
                return e
            raise Unsupported('defaultdict')
        if name == 'abs':
            v = self.need(self.ev(A[0], env), n)
            if isinstance(v, ObjV):
                return self.dunder(v, '__abs__', [])
            t = th.reify(v, INT)
            if self.entails(t >= 0):
                return IntV(t)
            return IntV(z3.If(t >= 0, t, -t))
        if name == 'int':
            v = self.need(self.ev(A[0], env), n)
            return th.coerce(v, INT)
        if name == 'bool':
            return BoolV(self.truth(self.ev(A[0], env)))
        if name in ('max', 'min'):
            if n.keywords:
                raise Unsupported('max/min with key')
            if len(A) == 1:
                return self.extremum(name, self.ev(A[0], env), n)
            vs = [self.need(self.ev(a, env), n) for a in A]
            r = th.reify(vs[0], INT)
            for v in vs[1:]:
                t = th.reify(v, INT)
                r = z3.If(r >= t, r, t) if name == 'max' else z3.If(r <= t, r, t)
            return IntV(r)
        if name == 'sum':
            return self.summation(self.ev(A[0], env), n)
        if name == 'type':
            v = self.ev(A[0], env)
            if isinstance(v, (OptV, UnionV)):
                alts = []

                def walk(w, c):
                    if isinstance(w, OptV):
                        alts.append((conj([c, w.none]), 'NoneType'))
                        walk(w.val, conj([c, neg(w.none)]))
                    elif isinstance(w, UnionV):
                        walk(w.a, conj([c, w.isa]))
                        walk(w.b, conj([c, neg(w.isa)]))
                    else:
                        alts.append((c, self.typename(w)))
                walk(v, TRUE)
                return DynTypeV(alts)
            v = self.need(v, n)
            return TypeV(self.typename(v))
        if name == 'isinstance':
            v = self.ev(A[0], env)
            if isinstance(v, OptV):
                v = self.need(v, n)
            ts = self.ev(A[1], env)
            ts = ts.items if isinstance(ts, TupV) else [ts]
            nm = self.typename(v)
            return BoolV(any(self.tyname(t) == nm or (self.tyname(t) == 'int' and nm == 'bool') or (self.tyname(t) == 'dict' and nm == 'HashableDict') for t in ts))
        if name in ('sorted', 'reversed'):
            v = self.ev(A[0], env)
            if name == 'reversed':
                s = self.as_seq(self.mat_any(v))
                if isinstance(s, EmptyV):
                    return EmptyV('list')
                if not isinstance(s, SeqV):
                    raise Unsupported('reversed(%s)' % s.ty)
                it = IterV(s.ety, length=s.len, at=lambda i: s.at(sub(sub(s.len, i), z3.IntVal(1))), kindname='seq')
                if s.items is not None:
                    it.items = list(reversed(s.items))
                return it
            if n.keywords:
                raise Unsupported('sorted with key')
            return self.sorted(v)
        if name == 'hash':
            return self.hash_of(self.ev(A[0], env))
        if name == 'iter':
            return self.ev(A[0], env)
        if name == 'next':
            v = self.ev(A[0], env)
            it = self.iterable(v)
            if it is None:
                self.ob('next-nonempty', FALSE)
                raise Unsupported('next of empty')
            if it.mem is None:
                self.ob('next-nonempty', it.len > 0)
                return it.at(z3.IntVal(0))
            x, cs = th.boundvars(it.ety)
            m = self.with_binders(cs, TRUE, lambda: it.mem(x))
            self.ob('next-nonempty', th.exists(cs, m))
            y = th.havoc(it.ety, 'nx')
            self.st.assume(implies(conj(self.guards), it.mem(y)), 'f')
            return y
        if name == 'map':
            f = self.ev(A[0], env)
            it = self.iterable(self.ev(A[1], env))
            if it is None:
                return EmptyV('list')
            if it.mem is not None:
                raise Unsupported('map over unordered')
            i = th.fresh(I, 'i')
            e0 = self.with_binders([i], z3.And(0 <= i, i < it.len), lambda: self.apply_t(f, [it.at(i)]))
            return IterV(e0.ty, length=it.len, at=lambda k: self.apply_t(f, [it.at(k)]), kindname='seq')
        raise Unsupported('builtin %s' % name)

    def apply_t(self, f, args):
        if isinstance(f, TypeV):
            e = {'_a%d' % i: a for i, a in enumerate(args)}
            return self.builtin(f.t, ast.parse('f(%s)' % ','.join(e), mode='eval').body, e)
        return self.apply(f, args, {})

    def typename(self, v):
        if isinstance(v, IntV):
            return 'int'
        if isinstance(v, BoolV):
            return 'bool'
        if isinstance(v, StrV):
            return 'str'
        if isinstance(v, (SeqV, EmptyV)):
            return v.kind
        if isinstance(v, TupV):
            return 'tuple'
        if isinstance(v, SetV):
            return 'set'
        if isinstance(v, MapV):
            return 'HashableDict' if v.hd else 'dict'
        if isinstance(v, ObjV):
            return self.reg.classinfo[v.cls].split('.')[1]
        if isinstance(v, NoneV):
            return 'NoneType'
        if isinstance(v, AbsV):
            if v.name in self.th.rings:
                return 'Polynomial'
            return 'abs:' + v.name
        raise Unsupported('type of %s' % v.ty)

    def tyname(self, t):
        if isinstance(t, TypeV):
            return t.t
        if isinstance(t, ClassV):
            return t.cls.split('.')[1]
        raise Unsupported('type test against %s' % t.ty)

    def length(self, v):
        th = self.th
        v = self.pick(v, True)
        if isinstance(v, EmptyV):
            return IntV(0)
        if isinstance(v, TupV):
            return IntV(len(v.items))
        if isinstance(v, SeqV):
            return IntV(v.len)
        if isinstance(v, IterV) and v.mem is None:
            return IntV(v.len)
        if isinstance(v, (SetV, MapV)):
            s = v if isinstance(v, SetV) else self.keyset(v)
            return IntV(self.card(s))
        if isinstance(v, ObjV):
            return self.dunder(v, '__len__', [])
        raise Unsupported('len(%s)' % v.ty)

    def card(self, s):
        th = self.th
        arr = th.reify(s, T('set', s.ety))
        return self.card_fn(s.ety)(arr)

    def card_fn(self, ety):
        th = self.th
        key = ('card', ety.name)
        if key not in th.memo:
            srt = th.sort(T('set', ety))
            f = z3.Function('card_' + ety.name, srt, I)
            th.memo[key] = f
            S, e = z3.Const('S!', srt), z3.Const('e!', th.sort(ety))
            w = z3.Function('wit_' + ety.name, srt, th.sort(ety))
            nm = {f.name()}
            # finite-set cardinality (library axioms CARD): nonnegative, zero iff empty, insertion
            th.fact(z3.ForAll([S], z3.And(f(S) >= 0, z3.Implies(f(S) > 0, S[w(S)])), patterns=[f(S)]), nm)
            th.fact(z3.ForAll([S, e], z3.Implies(S[e], f(S) > 0), patterns=[z3.MultiPattern(f(S), S[e])]), nm)
            d = z3.Const('d!', th.sort(ety))
            th.fact(z3.ForAll([S, e, d], z3.Implies(z3.And(f(S) == 1, S[e], S[d]), e == d), patterns=[z3.MultiPattern(f(S), S[e], S[d])]), nm)
            th.fact(z3.ForAll([S, e], f(z3.Store(S, e, True)) == z3.If(S[e], f(S), f(S) + 1), patterns=[f(z3.Store(S, e, True))]), nm)
        return th.memo[key]

    def extremum(self, name, v, n):
        th = self.th
        if isinstance(v, (CompV,)):
            s = self.comp_set(v)
            if isinstance(s, EmptyV):
                self.ob('nonempty:%s' % self.src(n), FALSE)
                raise Unsupported('max of empty')
            mem = s.mem
        else:
            it = self.iterable(v)
            if it is None:
                self.ob('nonempty:%s' % self.src(n), FALSE)
                raise Unsupported('max of empty')
            if getattr(it, 'items', None) is not None and it.items:
                r = th.reify(it.items[0], INT)
                for x in it.items[1:]:
                    t = th.reify(x, INT)
                    r = z3.If(r >= t, r, t) if name == 'max' else z3.If(r <= t, r, t)
                return IntV(r)
            if it.mem is not None:
                mem = it.mem
            else:
                sq = SeqV('list', it.ety, it.len, it.at)
                mem = lambda y: self.contains(sq, y)
        x = th.fresh(I, 'x')
        m = self.with_binders([x], TRUE, lambda: mem(IntV(x)))
        if not self.spec:
            self.ob('nonempty:%s' % self.src(n), th.exists([x], m))
        key = ('ext', name, z3.simplify(z3.substitute(m, (x, z3.Const('gx!', I)))).get_id())
        bs = [b for b in th.binders if b.get_id() in free_consts(m, {b.get_id(): b for b in th.binders})]
        if True:
            if bs:
                r = th.freshfn([b.sort() for b in bs], I, name)(*bs)
            else:
                r = th.fresh(I, name)
            nm = {r.decl().name()}
            ne = th.exists([x], m)
            th.fact(th.close(bs, implies(ne, z3.substitute(m, (x, r))), [r]), nm)
            le = (x <= r) if name == 'max' else (x >= r)
            th.fact(th.close(bs, th.forall([x], implies(m, le)), [r]), nm)
        return IntV(r)

    def summation(self, v, n):
        th = self.th
        if isinstance(v, EmptyV):
            return IntV(0)
        if isinstance(v, CompV) and len(v.node.generators) == 1:
            f, src, step = self.prefix_fn(v, 'sum')
            if f is None and src is None:
                return IntV(0)
            if f is not None:
                return IntV(f(src.len))
            raise Unsupported('sum over an unordered container')
        if isinstance(v, (SeqV, TupV, IterV)):
            it = self.iterable(v)
            node = ast.parse('(x for x in _s)', mode='eval').body
            f, src, step = self.prefix_fn(CompV(node, {'_s': v}), 'sum')
            return IntV(f(src.len))
        raise Unsupported('sum(%s)' % v.ty)

    def sorted(self, v):
        """A sorted list with the same multiset of elements."""
        th = self.th
        if isinstance(v, EmptyV):
            return EmptyV('list')
        s = self.to_set(v)
        if isinstance(s, EmptyV):
            return EmptyV('list')
        distinct = isinstance(v, (SetV, MapV)) or isinstance(v, IterV) and v.mem is not None and v.kindname != 'values'
        seq = None
        if isinstance(v, (SeqV,)):
            seq = v
        det = None
        if seq is not None and seq.ety.k == 'int':
            t = th.reify(seq, T('list', INT))
            if th.binders and free_consts(t, {b.get_id(): b for b in th.binders}):
                return th.lift(self.sortseq(t), T('list', INT))
        if self.total_order(s.ety):
            if distinct:
                det = 'sorted'
            elif seq is not None and not th.binders:
                t = th.reify(seq, seq.ty)
                th.keep.append(t)
                det = ('sorted', t.get_id())
        r = self.bag(s, 'list', distinct, det)
        # order: adjacent and global
        key = ('sorted', r.term.get_id(), None if seq is None else z3.simplify(seq.len).get_id())
        if key not in th.memo:
            th.memo[key] = True
            nm = {r.term.decl().name()}
            i, j = z3.Const('i!', I), z3.Const('j!', I)
            ln, at, rel, _ = th.fns[r.ty.name]
            if s.ety.k == 'int':
                lt = (at(r.term, i) < at(r.term, j)) if distinct else (at(r.term, i) <= at(r.term, j))
            elif s.ety.k == 'tup' and all(x.k == 'int' for x in s.ety.a):
                a, b = th.lift(at(r.term, i), s.ety), th.lift(at(r.term, j), s.ety)
                lt = self.lex(ast.Lt() if distinct else ast.LtE(), a.items, b.items)
            else:
                lt = TRUE
            if th.binders and free_consts(r.term, {b.get_id(): b for b in th.binders}):
                raise Unsupported('sorted under a binder')
            if not z3.is_true(lt):
                th.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(r.term)), lt), patterns=[z3.MultiPattern(at(r.term, i), at(r.term, j))]), nm)
            if seq is not None:
                th.fact(ln(r.term) == seq.len, nm)
                if seq.ety.k == 'int' and not th.binders:
                    th.fact(r.term == self.sortseq(th.reify(seq, seq.ty)), nm)
        return r

    def sortseq(self, t):
        """sorted() of a sequence of integers, as a function symbol applied to it."""
        th = self.th
        srt = th.sort(T('list', INT))
        ln, at, rel, _ = th.fns[T('list', INT).name]
        F = z3.Function('sortseq!', srt, srt)
        if ('sortseq',) not in th.memo:
            th.memo[('sortseq',)] = True
            a, i, j = z3.Const('a!', srt), z3.Const('i!', I), z3.Const('j!', I)
            p, q = z3.Function('sortp!', srt, I, I), z3.Function('sortq!', srt, I, I)
            d1, d2 = z3.Function('sortd1!', srt, I), z3.Function('sortd2!', srt, I)
            s, nm = F(a), {'sortseq!'}
            th.fact(z3.ForAll([a], z3.And(ln(s) == ln(a), rel(s), z3.Or(z3.And(0 <= d1(a), d1(a) < d2(a), d2(a) < ln(a), at(a, d1(a)) > at(a, d2(a))), z3.Not(rel(a)), s == a)), patterns=[s]), nm)
            # a weakly decreasing sequence is reversed
            e1, e2 = z3.Function('sorte1!', srt, I), z3.Function('sorte2!', srt, I)
            th.fact(z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < ln(s)), z3.Or(z3.And(0 <= e1(a), e1(a) < e2(a), e2(a) < ln(a), at(a, e1(a)) < at(a, e2(a))), at(s, i) == at(a, ln(a) - 1 - i))), patterns=[at(s, i)]), nm)
            th.fact(z3.ForAll([a, i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(s)), at(s, i) <= at(s, j)), patterns=[z3.MultiPattern(at(s, i), at(s, j))]), nm)
            th.fact(z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < ln(s)), z3.And(0 <= p(a, i), p(a, i) < ln(s), at(s, i) == at(a, p(a, i)))), patterns=[at(s, i)]), nm)
            th.fact(z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < ln(s)), z3.And(0 <= q(a, i), q(a, i) < ln(s), at(a, i) == at(s, q(a, i)), p(a, q(a, i)) == i)), patterns=[z3.MultiPattern(s, at(a, i))]), nm)
        return F(t)

    def hash_of(self, v):
        """hash(v): an unknown function of the value (immutable values only), or __hash__."""
        th = self.th
        if isinstance(v, ObjV):
            return self.dunder(v, '__hash__', [])
        if isinstance(v, MapV):
            if not v.hd:
                self.ob('hash of an unhashable dict', FALSE)
            elif not self.spec:
                return self.call_qual('polynomials.HashableDict.__hash__', [v], {})
        v = self.mat_any(v)
        if isinstance(v, EmptyV):
            raise Unsupported('hash of an empty container of unknown type')
        if isinstance(v, BoolV):
            v = th.coerce(v, INT)
        if isinstance(v, TupV):
            v = TupV([self.mat_any(x) for x in v.items])
        ty = v.ty
        self.hashable(v)
        t = th.reify(v, ty)
        return IntV(z3.Function('hash_' + ty.name, th.sort(ty), I)(t))

    def total_order(self, ty):
        return ty.k in ('int', 'bool', 'str') or ty.k in ('tup', 'tuple', 'list') and all(self.total_order(x) for x in ty.a)

    def value_method(self, name, v, args, kwargs, n, env, recv):
        th = self.th
        if isinstance(v, KwV):
            if name == 'get' and args and isinstance(args[0], StrV) and args[0].s is not None:
                return v.items.get(args[0].s, args[1] if len(args) > 1 else NoneV())
            raise Unsupported('keyword dictionary')
        if isinstance(v, MapV):
            if name == 'get':
                k = th.coerce(args[0], v.kty)
                d = args[1] if len(args) > 1 else NoneV()
                c = v.dom(k)
                return th.vite(c, v.val(k), d)
            if name in ('keys', '__iter__'):
                return self.keyset(v)
            if name == 'items':
                it = IterV(v.kty, mem=v.dom, kindname='items')
                it.wrap = lambda x: TupV([x, v.val(x)])
                it.is_items = True
                return it
            if name == 'values':
                it = IterV(v.kty, mem=v.dom, kindname='values')
                it.wrap = lambda x: v.val(x)
                return it
            if name == 'copy':
                return MapV(v.kty, v.vty, v.dom, v.val, term=v.term, hd=False)
            if name == 'degree' and v.hd:
                q = 'polynomials.HashableDict.degree'
                return self.call_qual(q, [v], {})
        if isinstance(v, EmptyV) and v.kind in ('dict', 'hdict'):
            if name == 'get':
                return args[1] if len(args) > 1 else NoneV()
            if name in ('keys', 'items', 'values'):
                return EmptyV('list')
            if name == 'copy':
                return EmptyV('dict')
        if isinstance(v, SeqV):
            if name == 'index':
                i = th.fresh(I, 'ix')
                x = args[0]
                self.ob('list.index-found', self.contains(v, x))
                g = conj(self.guards)
                self.st.assume(implies(g, z3.And(0 <= i, i < v.len, self.th.eq(v.at(i), x))), 'f')
                j = th.fresh(I, 'j')
                self.st.assume(implies(g, th.forall([j], implies(z3.And(0 <= j, j < i), neg(self.with_binders([j], TRUE, lambda: th.eq(v.at(j), x)))))), 'f')
                return IntV(i)
            if name == 'copy':
                return SeqV(v.kind, v.ety, v.len, v._at, term=v.term, items=v.items)
        if isinstance(v, SetV) and name == 'copy':
            return SetV(v.ety, v.mem, term=v.term)
        if isinstance(v, SetV) and name in ('union', 'intersection', 'difference', 'issubset'):
            b = self.to_set(args[0])
            if name == 'issubset':
                return BoolV(self.compare(ast.LtE(), v, b))
            return self.binop({'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], v, b)
        if isinstance(v, StrV):
            return StrV(None, th.fresh(th.sort(STR), 'str'))
        if name == 'union' and isinstance(v, EmptyV):
            return self.to_set(args[0])
        if isinstance(v, AbsV):
            raise Unsupported('method %s of abstract value' % name)
        raise Unsupported('method %s of %s' % (name, v.ty))

    # ------------------------------------------------------------ spec builtins
    def spec_call(self, name, n, env):
        th = self.th
        A = n.args
        if name == 'rank':
            # the place in a filtered list of the element at a position of its source
            v = self.ev(A[0], env)
            if getattr(v, 'rank', None) is None:
                raise Unsupported('rank in a list that is not a filtered one')
            return IntV(v.rank(th.reify(self.ev(A[1], env), INT)))
        if name == 'old':
            sv = dict(env)
            sv.update(self.old_env)
            return self.ev(A[0], sv)
        if name == 'implies':
            a = self.truth(self.ev(A[0], env))
            self.guards.append(a)
            b = self.truth(self.ev(A[1], env))
            self.guards.pop()
            return BoolV(implies(a, b))
        if name == 'term':
            v = self.ev(n.args[0], env)
            return self.th.lift(self.th.reify(v, v.ty), v.ty)
        if name == 'same':
            # equality of containers as terms (extensionality makes it the same thing as ==)
            a, b = self.ev(n.args[0], env), self.ev(n.args[1], env)
            ty = self.th.join_ty(a.ty, b.ty)
            return BoolV(self.th.reify(self.th.coerce(a, ty), ty) == self.th.reify(self.th.coerce(b, ty), ty))
        if name == 'iff':
            return BoolV(self.truth(self.ev(A[0], env)) == self.truth(self.ev(A[1], env)))
        if name in ('forall', 'exists'):
            tys = parse_type('tup[%s]' % A[0].value).a
            lam = A[1]
            cs, vals = [], []
            for t in tys:
                v, c = th.boundvars(t, 'q')
                vals.append(v)
                cs += c
            e = dict(env)
            for p, v in zip([a.arg for a in lam.args.args], vals):
                e[p] = v

            def inner():
                b = self.truth(self.ev(lam.body, e))
                pats = None
                if len(A) > 2:
                    pats = []
                    pl = A[2].body
                    for p in (pl.elts if isinstance(pl, ast.List) else [pl]):
                        e2 = dict(e)
                        for q, v in zip([a.arg for a in A[2].args.args], vals):
                            e2[q] = v
                        ts = [self.pat_term(x, e2) for x in (p.elts if isinstance(p, ast.Tuple) else [p])]
                        pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
                return b, pats
            b, pats = self.with_binders(cs, TRUE, inner)
            if name == 'forall':
                return BoolV(th.forall(cs, b, pats))
            return BoolV(th.exists(cs, b))
        if name == 'setof':       # setof("type", lambda x: phi)
            ty = parse_type(A[0].value)
            lam, e0 = A[1], dict(env)

            def mem(y):
                e = dict(e0)
                self.bind_lambda(lam, [th.coerce(y, ty)], e)
                sp, self.spec = self.spec, True
                ob, self.obl = self.obl, False
                try:
                    return self.truth(self.ev(lam.body, e))
                finally:
                    self.spec, self.obl = sp, ob
            return SetV(ty, mem)
        if name in ('seqof', 'prefix'):       # seqof("elem type", len, lambda i: e)
            ty = parse_type(A[0].value)
            ln = th.reify(self.ev(A[1], env), INT)
            lam, e0 = A[2], dict(env)

            def at(i):
                e = dict(e0)
                e[lam.args.args[0].arg] = IntV(i)
                sp, self.spec = self.spec, True
                ob, self.obl = self.obl, False
                self.guards.append(z3.And(0 <= i, i < ln))
                try:
                    return th.coerce(self.ev(lam.body, e), ty)
                finally:
                    self.guards.pop()
                    self.spec, self.obl = sp, ob
            return SeqV('tuple', ty, ln, at)
        if name == 'mapof':       # mapof("K","V", lambda k: dom, lambda k: val)
            kt, vt = parse_type(A[0].value), parse_type(A[1].value)
            e0 = dict(env)

            def run(lam, y):
                e = dict(e0)
                self.bind_lambda(lam, [th.coerce(y, kt)], e)
                sp, self.spec = self.spec, True
                ob, self.obl = self.obl, False
                try:
                    return self.ev(lam.body, e)
                finally:
                    self.spec, self.obl = sp, ob
            return MapV(kt, vt, lambda y: self.truth(run(A[2], y)), lambda y: th.coerce(run(A[3], y), vt))
        if name == 'obj':         # obj("Class", field values): the object with these fields
            flds = th.classes[A[0].value]
            return ObjV(A[0].value, {f: th.coerce(self.ev(a, env), t) for (f, t), a in zip(flds.items(), A[1:])})
        if name == 'emptymap':
            return th.empty(parse_type(A[0].value))
        if name == 'emptyset':
            return th.empty(T('set', parse_type(A[0].value)))
        if name == 'store':
            s, x = self.ev(A[0], env), self.ev(A[1], env)
            if isinstance(s, SetV) and s.term is None:
                s = SetV(s.ety, s.mem, term=th.reify(s, T('set', s.ety)))
            return self.set_add(s, x)
        if name == 'seteq':       # equality of finite sets, with extensionality for the terms that denote them
            a, b = self.to_set(self.ev(A[0], env)), self.to_set(self.ev(A[1], env))
            if isinstance(a, EmptyV):
                a = th.empty(T('set', b.ety))
            if isinstance(b, EmptyV):
                b = th.empty(T('set', a.ety))
            ty = T('set', a.ety)
            x, cs = th.boundvars(a.ety)
            ma, mb = self.with_binders(cs, TRUE, lambda: (a.mem(x), b.mem(x)))
            pw = th.forall(cs, ma == mb)
            if not th.binders:
                ta, tb = th.reify(a, ty), th.reify(b, ty)
                th.fact(z3.Implies(pw, ta == tb), None)
            return BoolV(pw)
        if name == 'card':
            return IntV(self.card(self.to_set(self.ev(A[0], env))))
        if name in ('as_list', 'as_tuple'):
            return self.materialize(self.ev(A[0], env), name[3:])
        if name == 'isnone':
            return BoolV(self.th.eq(self.ev(A[0], env), NoneV()))
        if name == 'isint':
            v = self.ev(A[0], env)
            return BoolV(v.isa if isinstance(v, UnionV) else isinstance(v, IntV))
        if name in ('asint', 'asseq'):
            v = self.ev(A[0], env)
            return (v.a if name == 'asint' else v.b) if isinstance(v, UnionV) else v
        if name == 'the':
            v = self.ev(A[0], env)
            return v.val if isinstance(v, OptV) else v
        if name == 'distinct':
            s = self.as_seq(self.ev(A[0], env))
            if isinstance(s, EmptyV):
                return BoolV(True)
            i, j = th.fresh(I, 'i'), th.fresh(I, 'j')
            g = z3.And(0 <= i, i < j, j < s.len)
            b = self.with_binders([i, j], g, lambda: neg(th.eq(s.at(i), s.at(j))))
            return BoolV(th.forall([i, j], implies(g, b)))
        if name in self.reg.macros:
            m = self.reg.macros[name]
            self.macros_used.add(name)
            vals = [self.ev(a, env) for a in A]
            if len(vals) != len(m.params):
                raise Unsupported('macro %s arity' % name)
            e = dict(zip(m.params, vals))
            sv = self.frame
            sp, self.spec = self.spec, True
            try:
                return self.ev(m.body, e)
            finally:
                self.frame, self.spec = sv, sp
        if name in self.reg.specfns:
            return self.specfn_app(name, [self.ev(a, env) for a in A])
        if name in self.reg.folds:
            return self.fold_app(name, [self.ev(a, env) for a in A])
        if name in self.reg.lemmas:
            return BoolV(self.lemma_app(name, [self.ev(a, env) for a in A]))
        raise Unsupported('spec function %s' % name)

    def pat_term(self, node, env):
        v = self.ev(node, env)
        if isinstance(v, BoolV):
            return v.t
        return self.th.reify(v, v.ty)

    def specfn_app(self, name, vals):
        th = self.th
        sf = self.reg.specfns[name]
        low = sf.fuel == 1 and name in getattr(self, 'unfolding', ())
        f = self.symfn('spec_' + name + ('_low' if low else ''), [t for _, t in sf.params], sf.returns)
        vals = [self.fit(v, t) if self.fit(v, t) is not None else v for v, (_, t) in zip(vals, sf.params)]
        term = f(*[th.reify(v, t) for v, (_, t) in zip(vals, sf.params)])
        key = ('specfn', name)
        if key not in th.memo:
            th.memo[key] = True
            svb, th.binders = th.binders, []
            svg, self.guards = self.guards, []
            sp = (self.spec, self.obl, self.st)
            self.spec, self.obl, self.st = True, False, None
            try:
                cs, env = [], {}
                for p, t in sf.params:
                    if t.k == 'tup':
                        v, c = th.boundvars(t, 'p_' + p)
                        cs += c
                        env[p] = v
                        continue
                    x = th.fresh(th.sort(t), 'p_' + p)
                    cs.append(x)
                    env[p] = th.lift(x, t)
                lhs = f(*[th.reify(env[p], t) for p, t in sf.params])
                if sf.body is not None:
                    th.binders.extend(cs)
                    self.unfolding = getattr(self, 'unfolding', ()) + (name,)
                    try:
                        body = self.ev(sf.body, env)
                    finally:
                        self.unfolding = self.unfolding[:-1]
                    if sf.fuel == 1:
                        # one unfolding per application written in a contract or met in the code
                        flow = self.symfn('spec_' + name + '_low', [t for _, t in sf.params], sf.returns)
                        th.fact(z3.ForAll(cs, lhs == flow(*lhs.children()), patterns=[lhs]), {f.name()})
                    if sf.returns.k in ('int', 'bool'):
                        rhs = th.reify(body, sf.returns)
                        th.fact(z3.ForAll(cs, lhs == rhs, patterns=[lhs]), {f.name()})
                    else:
                        th.fact(z3.ForAll(cs, th.eq(th.lift(lhs, sf.returns), th.coerce(body, sf.returns)), patterns=[lhs]), {f.name()})
                    del th.binders[:]
                if sf.returns.k in ('tuple', 'list', 'dict', 'hdict'):
                    th.fact(z3.ForAll(cs, th.fns[sf.returns.name][2](lhs), patterns=[lhs]), {f.name()})
            finally:
                th.binders, self.guards = svb, svg
                self.spec, self.obl, self.st = sp
        return th.lift(term, sf.returns)

    def fold_app(self, name, vals):
        """Sum over the finite set vals[-1]."""
        th = self.th
        fd = self.reg.folds[name]
        st = T('set', fd.etype)
        vals = [v if self.fit(v, t) is None else self.fit(v, t) for v, (_, t) in zip(vals[:-1], fd.params)] + [self.to_set(vals[-1])]
        f = self.symfn('fold_' + name, [t for _, t in fd.params] + [st], fd.rty)
        key = ('fold', name)
        if key not in th.memo:
            th.memo[key] = True
            svb, th.binders = th.binders, []
            svg, self.guards = self.guards, []
            sp = (self.spec, self.obl, self.st)
            self.spec, self.obl, self.st = True, False, None
            try:
                cs, env = [], {}
                for p, t in fd.params:
                    x = th.fresh(th.sort(t), 'p_' + p)
                    cs.append(x)
                    env[p] = th.lift(x, t)
                S = th.fresh(th.sort(st), 'S')
                x, xs = th.boundvars(fd.etype, 'x')
                xt = th.reify(x, fd.etype)
                env[fd.elem] = x
                th.binders.extend(cs + [S] + xs)
                e = th.reify(th.coerce(self.ev(fd.expr, env), fd.rty), fd.rty)
                nm = {f.name()}
                empty = z3.K(th.sort(fd.etype), FALSE)
                ins = z3.Store(S, xt, TRUE)
                if fd.rty.k == 'int':
                    zero, plus = 0, f(*cs, S) + e
                else:
                    zero = th.ring_int(fd.rty.a[0], z3.IntVal(0))
                    plus = self.absop('add', [th.lift(f(*cs, S), fd.rty), th.lift(e, fd.rty)])
                th.fact(th.close(cs, f(*cs, empty) == zero, [f(*cs, empty)]), nm)
                th.fact(z3.ForAll(cs + [S] + xs, z3.Implies(z3.Not(S[xt]), f(*cs, ins) == plus), patterns=[f(*cs, ins)]), nm)
                del th.binders[:]
            finally:
                th.binders, self.guards = svb, svg
                self.spec, self.obl, self.st = sp
        sv = vals[-1]
        if isinstance(sv, EmptyV):
            sv = th.empty(st)
        return th.lift(f(*[th.reify(v, t) for v, (_, t) in zip(vals[:-1], fd.params)], th.reify(sv, st)), fd.rty)

    def lemma_app(self, name, vals):
        lm = self.reg.lemmas[name]
        self.lemmas_used.add(name)
        env = {}
        for (p, t), v in zip(lm.params.items(), vals):
            w = self.fit(v, parse_type(t))
            if w is None and isinstance(v, (CompV, IterV)):
                w = self.fit(self.mat_any(v), parse_type(t))
            if w is None and parse_type(t).k == 'set' and isinstance(v, MapV):
                w = self.fit(self.to_set(v), parse_type(t))
            if w is None:
                raise Unsupported('lemma %s: argument %s has type %s' % (name, p, v.ty))
            env[p] = w
        if len(vals) != len(lm.params):
            raise Unsupported('lemma %s arity' % name)
        rq = conj([self.not_known(self.spec_bool(r, env)) for r in lm.requires])
        en = conj([self.spec_bool(r, env) for r in lm.ensures])
        return implies(rq, en)

    def not_known(self, t):
        """The conjuncts of t that are not literally among the facts of the current path."""
        if self.st is None:
            return t
        cache = self.th.memo.setdefault('normal', {})

        def normal(f):
            k = f.get_id()
            if k not in cache:
                self.th.keep.append(f)
                names = {}
                cache[k] = re.sub(r'[\w.]+!\d+', lambda m: names.setdefault(m.group(0), 'v!%d' % len(names)) if m.group(0).startswith('q!') else m.group(0), f.sexpr())
            return cache[k]

        def conjuncts(f):
            return [x for c in f.children() for x in conjuncts(c)] if z3.is_and(f) else [f]
        cs = conjuncts(t)
        if not any(z3.is_quantifier(c) for c in cs):
            return t
        known = {normal(x) for _, f in self.st.pc for x in conjuncts(f) if z3.is_quantifier(x)}
        return conj([c for c in cs if not (z3.is_quantifier(c) and normal(c) in known)])

    def is_lemma_app(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id in self.reg.lemmas or node.func.id == 'IH':
                return True
            if node.func.id == 'forall':
                return self.is_lemma_app(node.args[1].body)
            if node.func.id == 'implies':
                return self.is_lemma_app(node.args[1])
        return False

    def run_hints(self, hints, st, env, label, frame=None):
        if self.probe:
            return
        for k, h in enumerate(hints):
            marks = (len(self.th.binders), len(self.guards), self.spec, self.obl)
            try:
                self.run_hint(k, h, st, env, label, frame)
            except Unsupported as e:
                # a proof aid that does not apply on this path (a name is not bound, or bound to another type): go on without it
                self.hint_skips.append('hint %d of %s skipped on a path: %s' % (k, label, e))
                del self.th.binders[marks[0]:]
                del self.guards[marks[1]:]
                self.spec, self.obl = marks[2:]

    def run_hint(self, k, h, st, env, label, frame):
        node = ast.parse(h, mode='eval').body
        self.st = st
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'touch':
            # only introduces terms
            for a in node.args:
                v = self.spec_eval(a, env, frame)
                t = self.th.reify(v, v.ty)
                st.assume(z3.Or(t == t, FALSE) if False else (z3.Function('touch_' + t.sort().name().replace(' ', '_'), t.sort(), B)(t)), 'f')
            return
        when = None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'implies' and isinstance(node.args[1], ast.Call) \
                and isinstance(node.args[1].func, ast.Name) and node.args[1].func.id == 'obtain':
            when, node = self.spec_bool(node.args[0], env, frame), node.args[1]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'obtain':
            # existential elimination: names witnesses of a proved existence statement
            tys, lam = parse_type('tup[%s]' % node.args[0].value).a, node.args[1]
            ex = ast.copy_location(ast.Call(ast.Name('exists', ast.Load()), node.args[:2], []), node)
            t = self.spec_bool(ex, env, frame)
            self.ob('%s/assert[%d]' % (label, k), t if when is None else implies(when, t), st)
            for a, ty in zip(lam.args.args, tys):
                env[a.arg] = self.th.havoc(ty, a.arg)
            t = self.spec_bool(lam.body, env, frame)
            st.assume(t if when is None else implies(when, t), 'f')
            return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'abstract':
            # a proved statement about a local set replaces what is known about it: the set is forgotten, the statement is assumed of an arbitrary set
            x = node.args[0].id
            w = st.env.get(x)
            if env.get(x) is not w or not isinstance(w, SetV):
                raise Unsupported('abstract of %s' % x)
            for m, a in enumerate(node.args[1:]):
                self.ob('%s/assert[%d.%d]' % (label, k, m), self.spec_bool(a, env, frame), st)
            st.env[x] = env[x] = self.th.havoc(w.ty, x)
            for a in node.args[1:]:
                st.assume(self.spec_bool(a, env, frame), 'f')
            return
        t = self.spec_bool(node, env, frame)
        if not self.is_lemma_app(node):
            self.ob('%s/assert[%d]' % (label, k), t, st)
        st.assume(t, 'f')

    # ------------------------------------------------------------ containers: updates
    def set_add(self, s, x):
        th = self.th
        if isinstance(s, EmptyV):
            x = self.mat_any(x)
            s = th.empty(T('set', x.ty))
        x = th.coerce(x, s.ety)
        old = s
        term = None
        if old.term is not None:
            term = z3.Store(old.term, th.reify(x, s.ety), TRUE)
        return SetV(s.ety, lambda y: disj([th.eq(th.coerce(y, s.ety), x), old.mem(y)]), term=term)

    def seq_set(self, c, i, v):
        th = self.th
        v = th.coerce(v, c.ety) if c.ety != UNK else v
        if v.ty != c.ety:
            ty = th.join_ty(c.ety, v.ty)
            c = th.coerce(c, T(c.kind, ty))
            v = th.coerce(v, ty)
        items = None
        k = z3.simplify(i)
        if c.items is not None and z3.is_int_value(k) and 0 <= k.as_long() < len(c.items):
            items = list(c.items)
            items[k.as_long()] = v
            return th.seq_of(items, c.kind, c.ety)
        return SeqV(c.kind, c.ety, c.len, lambda j: th.vite(z3.simplify(j == i), v, c.at(j)))

    def map_set(self, m, k, v):
        th = self.th
        if isinstance(m, EmptyV):
            d = getattr(m, 'default', None)
            m = th.empty(T('dict', self.mat_any(k).ty, v.ty))
            m.default = d
        self.hashable(k)
        k = th.coerce(k, m.kty)
        if isinstance(k, SeqV) and k.term is None:
            k = th.lift(th.reify(k, m.kty), m.kty)
        if v.ty != m.vty:
            ty = th.join_ty(m.vty, v.ty)
            d = m.default
            m = th.coerce(m, T('dict', m.kty, ty))
            m.default = d
            v = th.coerce(v, ty)
        return MapV(m.kty, m.vty, lambda y: disj([th.eq(th.coerce(y, m.kty), k), m.dom(y)]),
                    lambda y: th.vite(th.eq(th.coerce(y, m.kty), k), v, m.val(y)), hd=m.hd, default=m.default)

    def map_del(self, m, k):
        th = self.th
        k = th.coerce(k, m.kty)
        return MapV(m.kty, m.vty, lambda y: conj([neg(th.eq(th.coerce(y, m.kty), k)), m.dom(y)]), m.val, hd=m.hd, default=m.default)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """Returns a list of (kind, state, value), kind in next/return/break/continue/raise."""
        work = [(0, st)]
        out = []
        cur = [('next', st, None)]
        for s in stmts:
            nxt = []
            for kind, x, v in cur:
                if kind != 'next':
                    nxt.append((kind, x, v))
                    continue
                self.st = x
                nxt += self.exec_stmt(s, x)
            cur = nxt
            if len(cur) > 400:
                raise Unsupported('too many paths')
        return cur

    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, st)

    def st_Pass(self, s, st):
        return [('next', st, None)]

    def st_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return [('next', st, None)]
        if isinstance(v, ast.Yield):
            return self.do_yield(self.mat_any(self.ev(v.value, st.env)), st)
        if isinstance(v, ast.YieldFrom):
            raise Unsupported('yield from')
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in MUTATORS:
            recv = v.func.value
            rv = self.ev(recv, st.env)
            if isinstance(rv, (SeqV, SetV, MapV, EmptyV)):
                return self.mutate_call(v, recv, rv, st)
        if isinstance(v, ast.Call):
            self.call_stmt(v, st)
            return [('next', st, None)]
        self.ev(v, st.env)
        return [('next', st, None)]

    def call_stmt(self, v, st):
        """A call evaluated for its effect: mutated list arguments of an inlined local helper are written back."""
        fv = self.ev(v.func, st.env)
        if isinstance(fv, FuncV) and fv.qual in self.repo.fns and fv.qual not in self.reg.contracts and not self.repo.fns[fv.qual].is_gen:
            fn = self.repo.fns[fv.qual]
            args = ([fv.bound] if fv.bound is not None else []) + [self.ev(a, st.env) for a in v.args]
            kwargs = {k.arg: self.ev(k.value, st.env) for k in v.keywords}
            if not self.mutated_params(fn):
                self.apply(fv, args[1:] if fv.bound is not None else args, kwargs, v, st.env)
                return
            raise Unsupported('call with in-place effects: %s' % fv.qual)
        self.ev(v, st.env)

    def mutated_params(self, fn):
        ps = {a.arg for a in fn.node.args.args}
        names, _ = self.modified(fn.node.body, containers_only=True)
        return ps & names

    def do_yield(self, v, st):
        c = self.frame.contract
        if c is None or '_Y' not in st.env:
            raise Unsupported('yield without a generator contract')
        self.st = st
        Y = st.env['_Y']
        if c.yseq is not None:
            v = self.th.coerce(v, Y.ety)
            one = self.th.seq_of([v], 'list', Y.ety)
            st.env['_Y'] = self.concat(Y, one)
            return [('next', st, None)]
        v = self.fit(v, parse_type(c.ytype))
        if v is None:
            self.ob('yield-type', FALSE)
            raise Unsupported('type of yielded value')
        lam = ast.parse(c.yields, mode='eval').body
        e = dict(self.old_env)
        self.bind_lambda(lam, [v], e)
        self.run_hints(c.hints, st, dict(st.env, _y=v), 'yield-hint')
        self.ob('yield-sound', self.spec_bool(lam.body, e), st)
        if c.ydistinct:
            self.ob('yield-distinct', neg(Y.mem(v)), st)
        st.env['_Y'] = self.set_add(Y, v)
        return [('next', st, None)]

    def global_dict(self, name, st):
        """Qualified name of the registered memo table that `name` denotes here, if any."""
        if name is None or name in st.env or self.frame is None:
            return None
        mod = self.frame.mod
        imp = self.repo.imports.get(mod, {}).get(name)
        q = '%s.%s' % imp if imp and imp[1] else '%s.%s' % (mod, name)
        return q if q in self.reg.gdicts else None

    def own_check(self, name, st, what):
        if name not in st.owned:
            self.ob('frame:%s mutates shared value %s' % (what, name), FALSE, st)
            if not self.probe and self.obl:
                self.notes.append('%s mutates a value it does not own (%s)' % (what, name))

    def root_name(self, n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    def share(self, node, st):
        """The container named by node becomes reachable from elsewhere."""
        if isinstance(node, ast.Name):
            v = st.env.get(node.id)
            if isinstance(v, (SeqV, EmptyV)) and v.kind in ('list', 'dict', 'set') or isinstance(v, (SetV, MapV)):
                st.owned.discard(node.id)
        elif isinstance(node, (ast.Tuple, ast.List)):
            for e in node.elts:
                self.share(e, st)
        elif isinstance(node, ast.Dict):
            for e in node.values:
                self.share(e, st)

    def mutate_call(self, call, recv, rv, st):
        name = call.func.attr
        root = self.root_name(recv)
        if root is None:
            raise Unsupported('mutation of an anonymous value')
        self.own_check(root, st, name)
        args = [self.ev(a, st.env) for a in call.args]
        for a in call.args:
            self.share(a, st)
        th = self.th
        kind = rv.kind if isinstance(rv, (SeqV, EmptyV)) else 'set' if isinstance(rv, SetV) else 'dict'
        new = None
        if kind == 'list' and name == 'append':
            x = self.mat_any(args[0])
            if isinstance(rv, EmptyV):
                new = th.seq_of([x], 'list', x.ty)
            else:
                ty = th.join_ty(rv.ety, x.ty)
                rv2, x = th.coerce(rv, T('list', ty)), th.coerce(x, ty)
                L = rv2.len
                items = None if rv2.items is None else rv2.items + [x]
                new = th.seq_of(items, 'list', ty) if items is not None else SeqV('list', ty, add(L, z3.IntVal(1)), lambda i: th.vite(z3.simplify(i == L), x, rv2.at(i)))
                m = self.seq_mem(rv2)
                if m is not None and items is None:
                    new.mset = lambda y: disj([m(y), th.eq(th.coerce(y, ty), x)])
        elif kind == 'list' and name == 'extend':
            new = self.concat(rv, self.materialize(args[0], 'list'))
        elif kind == 'list' and name == 'pop' and not args:
            self.ob('pop-nonempty', rv.len > 0)
            new = SeqV('list', rv.ety, sub(rv.len, z3.IntVal(1)), rv.at)
        elif kind == 'list' and name == 'reverse':
            new = SeqV('list', rv.ety, rv.len, lambda i: rv.at(sub(sub(rv.len, i), z3.IntVal(1))))
        elif kind == 'list' and name == 'sort' and not call.keywords:
            new = self.sorted(rv)
        elif kind == 'set' and name == 'add':
            new = self.set_add(rv, self.mat_any(args[0]))
        elif kind == 'set' and name == 'update':
            new = self.binop('BitOr', rv, self.to_set(args[0]))
        elif kind == 'set' and name in ('remove', 'discard'):
            x = th.coerce(args[0], rv.ety)
            if name == 'remove':
                self.ob('set.remove-present', rv.mem(x))
            new = SetV(rv.ety, lambda y: conj([rv.mem(y), neg(th.eq(y, x))]))
        elif kind in ('dict', 'hdict') and name == 'update':
            b = args[0]
            if isinstance(b, EmptyV):
                new = rv
            elif isinstance(rv, EmptyV):
                new = b
            else:
                new = MapV(rv.kty, rv.vty, lambda y: disj([b.dom(y), rv.dom(y)]), lambda y: th.vite(b.dom(y), b.val(y), rv.val(y)), hd=rv.hd)
        if new is None:
            raise Unsupported('%s.%s' % (kind, name))
        self.store_into(recv, new, st)
        return [('next', st, None)]

    def store_into(self, target, v, st):
        """Functional update of the (nested) place denoted by target."""
        th = self.th
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return
        if isinstance(target, ast.Attribute):
            o = self.ev(target.value, st.env)
            if isinstance(o, ObjV) and o.building and isinstance(target.value, ast.Name):
                f = dict(o.fields)
                f[target.attr] = v
                st.env[target.value.id] = ObjV(o.cls, f, building=True)
                return
            if self.frame and self.frame.contract and isinstance(o, ObjV) and isinstance(target.value, ast.Name) and target.value.id in self.frame.contract.modifies:
                f = dict(o.fields)
                f[target.attr] = v
                st.env[target.value.id] = ObjV(o.cls, f)
                return
            self.ob('frame:assignment to attribute %s' % target.attr, FALSE, st)
            raise Unsupported('attribute assignment %s' % self.src(target))
        if isinstance(target, ast.Subscript):
            c = self.ev(target.value, st.env)
            if isinstance(target.slice, ast.Slice):
                raise Unsupported('slice assignment')
            i = self.ev(target.slice, st.env)
            if isinstance(c, SeqV):
                if c.kind == 'tuple':
                    self.ob('tuple-assignment', FALSE)
                    raise Unsupported('assignment into a tuple')
                it = th.reify(self.need(i), INT)
                self.ob('index:%s' % self.src(target), z3.And(-c.len <= it, it < c.len), st)
                new = self.seq_set(c, self.norm_index(it, c.len), v)
            elif isinstance(c, MapV) or isinstance(c, EmptyV) and c.kind in ('dict', 'hdict'):
                new = self.map_set(c, i, v)
            elif isinstance(c, EmptyV):
                self.ob('index:%s' % self.src(target), FALSE)
                raise Unsupported('assignment into empty list')
            else:
                raise Unsupported('subscript assignment on %s' % c.ty)
            self.store_into(target.value, new, st)
            return
        raise Unsupported('target %s' % self.src(target))

    def fresh_expr(self, node, v):
        if isinstance(node, (ast.List, ast.ListComp, ast.SetComp, ast.DictComp, ast.Dict, ast.Set, ast.BinOp)):
            return True
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            return True
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Name) and f.id in BUILTINS and f.id not in ('iter', 'next', 'min', 'max'):
                return True
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'union', 'intersection', 'difference'):
                return True
            return bool(getattr(v, 'is_fresh', False)) or self.call_is_fresh(f)
        if isinstance(node, ast.IfExp):
            return self.fresh_expr(node.body, v) and self.fresh_expr(node.orelse, v)
        return False

    def call_is_fresh(self, f):
        try:
            fv = self.ev(f, self.st.env)
        except Exception:
            return False
        if isinstance(fv, FuncV) and fv.qual in self.repo.fns:
            if self.repo.fns[fv.qual].cached:
                return False
            cs = self.reg.contracts.get(fv.qual)
            if cs:
                return all(c.fresh for c in cs)
        return False

    def assign(self, target, v, st, node):
        if isinstance(target, ast.Name):
            v = self.mat_gen(v)
            want = self.frame.contract.locals.get(target.id) if self.frame and self.frame.contract else None
            if want:
                v = self.th.coerce(v, parse_type(want))
            st.env[target.id] = v
            if self.fresh_expr(node, v) if node is not None else False:
                st.owned.add(target.id)
            else:
                st.owned.discard(target.id)
                if node is not None:
                    self.share(node, st)
            if isinstance(node, (ast.List, ast.Tuple, ast.Dict)):
                self.share(node, st)
                if not isinstance(node, ast.Tuple):
                    st.owned.add(target.id)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(target.elts):
                vals = v.items if isinstance(v, (TupV, SeqV)) and v.items is not None else None
                for t, x, e in zip(target.elts, vals, node.elts):
                    self.assign(t, x, st, e)
                return
            v = self.need(v)
            if isinstance(v, TupV):
                if len(v.items) != len(target.elts):
                    self.ob('unpack', FALSE)
                    raise Unsupported('unpack')
                vals = v.items
            elif isinstance(v, SeqV):
                self.ob('unpack:%s' % self.src(target), v.len == len(target.elts))
                vals = [v.at(z3.IntVal(i)) for i in range(len(target.elts))]
            else:
                raise Unsupported('unpack %s' % v.ty)
            for t, x in zip(target.elts, vals):
                self.assign(t, x, st, None)
        elif isinstance(target, (ast.Subscript, ast.Attribute)):
            root = self.root_name(target)
            gq = self.global_dict(root, st) if isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name) else None
            if gq:
                k, w = self.memo_entry(gq, self.ev(target.slice, st.env), v, st, 'invariant')
                old = st.env.get('@table:' + gq)
                ty = self.reg.gdicts[gq][0]
                base = old if old is not None else MapV(ty.a[0], ty.a[1], lambda x: FALSE, lambda x: None)
                th = self.th
                st.env['@table:' + gq] = MapV(ty.a[0], ty.a[1], lambda x: disj([th.eq(x, k), base.dom(x)]), base.val)
                if node is not None:
                    self.share(node, st)
                return
            if isinstance(target, ast.Subscript):
                self.own_check(root, st, 'assignment')
            if node is not None:
                self.share(node, st)
            self.store_into(target, v, st)
        else:
            raise Unsupported('assignment target')

    def mat_gen(self, v):
        if isinstance(v, CompV):
            return v
        return v

    def st_Assign(self, s, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name):
            o = st.env.get(s.targets[0].value.id)
            if isinstance(o, ObjV) and (o.cls, s.targets[0].attr) in self.reg.ignored:
                self.assumptions.add('%s.%s is not modelled: %s is skipped' % (o.cls, s.targets[0].attr, self.src(s)))
                return [('next', st, None)]
            if isinstance(o, ObjV) and (o.cls, s.targets[0].attr) in self.reg.fnattrs:
                v = self.ev(s.value, st.env)
                if not isinstance(v, FuncV) or v.qual != self.reg.fnattrs[(o.cls, s.targets[0].attr)]:
                    self.ob('attribute %s is the function %s' % (s.targets[0].attr, self.reg.fnattrs[(o.cls, s.targets[0].attr)]), FALSE, st)
                return [('next', st, None)]
        v = self.ev(s.value, st.env)
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)):
            pass
        for t in s.targets:
            self.assign(t, v, st, s.value)
        return [('next', st, None)]

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st.env)
            self.assign(s.target, v, st, s.value)
        return [('next', st, None)]

    def st_AugAssign(self, s, st):
        self.aug_node = ast.parse(ast.unparse(s.target), mode='eval').body
        cur = self.ev(self.aug_node, st.env)
        self.aug_node = None
        rhs = self.ev(s.value, st.env)
        kind = getattr(cur, 'kind', None) if isinstance(cur, (SeqV, EmptyV)) else ('set' if isinstance(cur, SetV) else None)
        if kind in ('list', 'set', 'dict'):
            self.own_check(self.root_name(s.target), st, 'augmented assignment')
            if kind == 'list':
                rhs = self.materialize(rhs, 'list')
            v = self.binop(type(s.op).__name__, cur, rhs, s)
            self.store_into(s.target, v, st)
            return [('next', st, None)]
        if isinstance(cur, ObjV):
            cls = self.reg.classinfo[cur.cls]
            inplace = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Pow': '__ipow__', 'FloorDiv': '__ifloordiv__', 'Mod': '__imod__'}.get(type(s.op).__name__)
            if inplace is None or self.repo.method(cls, inplace):
                raise Unsupported('in-place operator on an object: %s' % self.src(s))
        v = self.binop(type(s.op).__name__, cur, rhs, s)
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = v
            st.owned.discard(s.target.id)
        else:
            if isinstance(s.target, ast.Subscript):
                self.own_check(self.root_name(s.target), st, 'augmented assignment')
            self.store_into(s.target, v, st)
        return [('next', st, None)]

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                c = self.ev(t.value, st.env)
                if isinstance(c, MapV):
                    self.own_check(self.root_name(t), st, 'del')
                    k = self.ev(t.slice, st.env)
                    self.ob('del-key-present', c.dom(self.th.coerce(k, c.kty)), st)
                    self.store_into(t.value, self.map_del(c, k), st)
                    continue
            raise Unsupported('del %s' % self.src(t))
        return [('next', st, None)]

    def st_FunctionDef(self, s, st):
        return [('next', st, None)]

    def st_Import(self, s, st):
        return [('next', st, None)]

    def st_Return(self, s, st):
        v = NoneV() if s.value is None else self.ev(s.value, st.env)
        c = self.frame.contract if self.frame else None
        if s.value is not None and c is not None and c is self.entry and c.fresh and not self.depth and not self.repo.fns[c.qual].cached \
                and (isinstance(v, (SeqV, EmptyV)) and v.kind in ('list', 'dict', 'set') or isinstance(v, (SetV, MapV)) and not getattr(v, 'hd', False)):
            if not (self.fresh_expr(s.value, v) or isinstance(s.value, ast.Name) and s.value.id in st.owned):
                self.ob('returns-fresh:%s' % self.src(s.value), FALSE, st)
        return [('return', st, v)]

    def st_Break(self, s, st):
        return [('break', st, None)]

    def st_Continue(self, s, st):
        return [('continue', st, None)]

    def st_Raise(self, s, st):
        return [('raise', st, None)]

    def st_Assert(self, s, st):
        c = self.frame.contract
        if c and c.partial:
            self.assumptions.add('%s: says nothing about calls in which assert %s fails' % (c.name, self.src(s.test)))
            try:
                t = self.truth(self.ev(s.test, st.env))
            except Unsupported:
                return [('next', st, None)]
            st.assume(t)
            st.env = self.narrow(s.test, st.env, True)
            return [('next', st, None)]
        t = self.truth(self.ev(s.test, st.env))
        if c and c.raises and not self.spec:
            bad = st.copy()
            bad.assume(neg(t))
            st.assume(t)
            st.env = self.narrow(s.test, st.env, True)
            return [('next', st, None), ('raise', bad, None)]
        if not (c and c.assume_asserts):
            self.ob('assert:%s' % self.src(s.test), t, st)
        elif c:
            self.assumptions.add('%s: assert %s is assumed (its failure is an exception, not a wrong result)' % (c.name, self.src(s.test)))
        st.assume(t)
        st.env = self.narrow(s.test, st.env, True)
        return [('next', st, None)]

    def st_If(self, s, st):
        c = z3.simplify(self.truth(self.ev(s.test, st.env)))
        out = []
        if not z3.is_false(c):
            a = st.copy()
            a.assume(c)
            a.env = self.narrow(s.test, a.env, True)
            if z3.is_true(c) or self.feasible(a):
                out += self.exec_block(s.body, a)
        if not z3.is_true(c):
            b = st.copy()
            b.assume(neg(c))
            b.env = self.narrow(s.test, b.env, False)
            if z3.is_false(c) or self.feasible(b):
                out += self.exec_block(s.orelse, b)
        return out

    def st_Try(self, s, st):
        if s.finalbody or s.orelse or len(s.handlers) != 1:
            raise Unsupported('try statement')
        h = s.handlers[0]
        c = self.frame.contract
        if c and c.partial and isinstance(h.body[-1], ast.Raise):
            return self.opaque_block(s, st, c)
        out = []
        cur = [('next', st, None)]
        for b in s.body:
            nxt = []
            for kind, x, v in cur:
                if kind != 'next':
                    nxt.append((kind, x, v))
                    continue
                before = x.copy()
                sv = self.raise_stack
                self.raise_stack = []
                self.st = x
                try:
                    res = self.exec_stmt(b, x)
                    conds = self.raise_stack
                finally:
                    self.raise_stack = sv
                for k2, y, w in res:
                    if k2 == 'raise':
                        out += self.exec_block(h.body, y)
                    else:
                        nxt.append((k2, y, w))
                if conds:
                    before.assume(disj(conds))
                    if self.feasible(before):
                        out += self.exec_block(h.body, before)
            cur = nxt
        return cur + out

    def opaque_block(self, s, st, c):
        """A guarded block that only assigns local variables, under partial correctness: afterwards
        those variables have arbitrary values (of the types the contract gives for them)."""
        names = []
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets):
                    names += [t.id for t in x.targets]
                elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.Return, ast.Yield, ast.YieldFrom, ast.For, ast.While, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.NamedExpr, ast.With, ast.Try)):
                    raise Unsupported('statement in a guarded block')
        self.assumptions.add('%s: the guarded block at "%s" is not followed: its variables get arbitrary values; the calls in it are assumed to have no side effects' % (c.name, self.src(s.body[0])))
        for nm in names:
            st.env[nm] = self.th.havoc(parse_type(c.locals[nm]), nm) if nm in c.locals else OpaqueV()
        bad = st.copy()
        return [('next', st, None), ('raise', bad, None)]

    # ------------------------------------------------------------ loops
    def modified(self, body, containers_only=False, augnames=True):
        names, yields = set(), False

        def tgt(t):
            if isinstance(t, ast.Name):
                if not containers_only:
                    names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                r = self.root_name(t)
                if r:
                    names.add(r)
        stack = list(body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tgt(x.target)
                if containers_only and augnames and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
            elif isinstance(x, ast.For):
                tgt(x.target)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r = self.root_name(x.func.value)
                if r:
                    names.add(r)
            elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                yields = True
            stack.extend(ast.iter_child_nodes(x))
        return names, yields

    def loop_contract(self, s):
        c = self.frame.contract
        if c is None:
            return None
        if not hasattr(c, '_loopmap') or c._loopmap_src is not self.repo.fns[self.frame.qual].node:
            fn = self.repo.fns[self.frame.qual].node
            loops = [n for n in walk_own(fn) if isinstance(n, (ast.For, ast.While))]
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            heads = [loop_head(n) for n in loops]
            want = [l.head for l in c.loops]
            m = {}
            # align by header text first, then fill the gaps by similarity in order
            sm = difflib.SequenceMatcher(None, want, heads, autojunk=False)
            usedw, usedh = set(), set()
            for b in sm.get_matching_blocks():
                for k in range(b.size):
                    m[heads_key(loops[b.b + k])] = c.loops[b.a + k]
                    usedw.add(b.a + k)
                    usedh.add(b.b + k)
            restw = [i for i in range(len(want)) if i not in usedw]
            resth = [i for i in range(len(heads)) if i not in usedh]
            for i in list(restw):
                best = None
                for j in resth:
                    if type(loops[j]).__name__ != ('While' if want[i].startswith('while') else 'For'):
                        continue
                    r = difflib.SequenceMatcher(None, want[i], heads[j]).ratio()
                    if best is None or r > best[0]:
                        best = (r, j)
                if best and (best[0] > 0.3 or len(restw) == 1):
                    m[heads_key(loops[best[1]])] = c.loops[i]
                    resth.remove(best[1])
            c._loopmap, c._loopmap_src = m, fn
        return c._loopmap.get(heads_key(s))

    def loop_env(self, st, ghosts):
        e = dict(st.env)
        e.update(ghosts)
        return e

    def check_inv(self, lc, st, ghosts, what, label):
        if lc is None or self.probe:
            return
        self.st = st
        e = self.loop_env(st, ghosts)
        for k, inv in enumerate(lc.inv):
            self.ob('%s/inv[%d]/%s' % (label, k, what), self.spec_bool(inv, e), st)

    def assume_inv(self, lc, st, ghosts):
        if lc is None or self.probe:
            return
        self.st = st
        e = self.loop_env(st, ghosts)
        for inv in lc.inv:
            st.assume(self.spec_bool(inv, e), 'c')

    def havoc_vars(self, st, names, types, rebound=()):
        for x in names:
            if x in types:
                d = getattr(st.env.get(x), 'default', None)
                st.env[x] = self.th.havoc(types[x], x) if types[x].k not in ('fn',) else st.env[x]
                if isinstance(st.env[x], MapV) and d is not None:
                    # still the dictionary created before the loop, unless the body may rebind the name
                    st.env[x].default = d if x not in rebound else None
            elif x in st.env:
                st.env.pop(x)
                st.owned.discard(x)

    def infer_types(self, st, names, body_fn, lc):
        """Types of the variables modified by a loop: fixpoint of dry runs of the body."""
        types = {}
        for x in names:
            if x in st.env:
                v = st.env[x]
                types[x] = v.ty
                if isinstance(v, CompV):
                    raise Unsupported('generator variable modified in loop')
        if lc is not None:
            for x, t in lc.types.items():
                types[x] = parse_type(t)
        c = self.frame.contract
        if c is not None:
            for x, t in c.locals.items():
                if x in names and x in types:
                    types[x] = parse_type(t)
        for rnd in range(5):
            unknown = self.has_unk(types)
            self.probe += 1
            sobl = self.obl
            facts_mark = None
            try:
                s2 = st.copy()
                for x in names:
                    if x in types:
                        if self.type_unk(types[x]):
                            s2.env[x] = EmptyV(types[x].k) if types[x].k in ('list', 'set', 'dict', 'tuple') else s2.env[x]
                            if types[x].k in ('list', 'tuple', 'set', 'dict') and types[x].a[0] != UNK and rnd > 0:
                                raise Unsupported('cannot infer the type of %s' % x)
                        else:
                            s2.env[x] = self.th.havoc(types[x], x)
                    else:
                        s2.env.pop(x, None)
                new = dict(types)
                for kind, s3, v in body_fn(s2):
                    if kind in ('next', 'continue'):
                        for x in types:
                            if x in s3.env:
                                new[x] = self.th.join_ty(new[x], s3.env[x].ty)
            finally:
                self.probe -= 1
                self.obl = sobl
            if new == types:
                break
            types = new
        return {x: self.finish_ty(t) for x, t in types.items()}

    def type_unk(self, t):
        return t == UNK or any(self.type_unk(a) for a in t.a if isinstance(a, T))

    def has_unk(self, types):
        return any(self.type_unk(t) for t in types.values())

    def finish_ty(self, t):
        if t.k == 'unk':
            return INT
        if t.k in ('abs', 'obj', 'fn', 'comp', 'iter'):
            return t
        return T(t.k, *[self.finish_ty(a) if isinstance(a, T) else a for a in t.a])

    def st_While(self, s, st):
        return self.loop(s, st, None)

    def st_For(self, s, st):
        if s.orelse:
            raise Unsupported('for-else')
        it = self.iterable(self.ev(s.iter, st.env))
        if it is None:
            return [('next', st, None)]
        base = s.iter
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr in ('keys', 'items', 'values'):
            base = base.func.value
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id in ('enumerate', 'reversed', 'zip') and base.args:
            base = base.args[0]
        root = self.root_name(base)
        if root is not None and root in self.modified(s.body, containers_only=True)[0]:
            if not (isinstance(s.iter, ast.Name) and isinstance(st.env.get(root), MapV) and self.only_stores(s.body, root)):
                raise Unsupported('loop mutates the container it iterates over (%s)' % root)
            it.keepkeys = root
        if getattr(it, 'items', None) is not None and len(it.items) <= 3 and self.loop_contract(s) is None:
            cur = [('next', st, None)]
            done = []
            for x in it.items:
                nxt = []
                for kind, y, v in cur:
                    self.st = y
                    self.assign(s.target, x, y, None)
                    for k2, z, w in self.exec_block(s.body, y):
                        if k2 in ('next', 'continue'):
                            nxt.append(('next', z, None))
                        elif k2 == 'break':
                            done.append(('next', z, None))
                        else:
                            done.append((k2, z, w))
                cur = nxt
            return cur + done
        return self.loop(s, st, it)

    def only_stores(self, body, root):
        """Every occurrence of root in the loop body reads or stores an element: root[e]."""
        ok = {id(x.value) for b in body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == root and not isinstance(x.ctx, ast.Del)}
        return all(id(x) in ok for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == root)

    def loop(self, s, st, it):
        th = self.th
        if not self.obl and not self.probe:
            raise Unsupported('loop in a value context')
        lc = self.loop_contract(s)
        self.nloops += 1
        tag = (lc.tag if lc is not None and lc.tag else '')
        label = 'loop[%s]' % (lc.head if lc is not None else loop_head(s))
        sfx = ('_' + tag) if tag else ''
        names, yields = self.modified(s.body)
        if isinstance(s, ast.For):
            n2, _ = self.modified([ast.Assign(targets=[s.target], value=ast.Constant(0))])
            tnames = n2
        else:
            tnames = set()
        names |= tnames
        if yields:
            names.add('_Y')
        names = {x for x in names}

        entry_pc_len = len(st.pc)

        def enter(s2, ghosts, elem):
            """Execute one arbitrary iteration from state s2."""
            self.st = s2
            if isinstance(s, ast.For):
                self.assign(s.target, elem, s2, None)
                if lc is not None and lc.step:
                    self.run_hints(lc.step, s2, self.loop_env(s2, ghosts), label + '/step')
                return self.exec_block(s.body, s2)
            c = self.truth(self.ev(s.test, s2.env))
            s2.assume(c)
            s2.env = self.narrow(s.test, s2.env, True)
            if lc is not None and lc.step:
                self.run_hints(lc.step, s2, self.loop_env(s2, ghosts), label + '/step')
            return self.exec_block(s.body, s2)

        def probe_body(s2):
            self.st = s2
            if it is not None:
                if it.mem is not None:
                    x, cs = th.boundvars(it.ety)
                    w = getattr(it, 'wrap', None)
                    el = w(x) if w else x
                else:
                    el = it.at(th.fresh(I, 'k'))
            else:
                el = None
            return enter(s2, {}, el)
        types = self.infer_types(st, names, probe_body, lc)
        own = {x for x in names if x in st.owned}

        # ---- ghosts
        if it is not None and it.mem is not None:
            srt = th.sort(T('set', it.ety))
            kk = None
        # initial
        g0 = {}
        if it is not None:
            if it.mem is None:
                g0['_i' + sfx] = IntV(0)
                if getattr(it, 'rng', None):
                    g0['_n' + sfx] = IntV(it.rng[0])
                g0['_s' + sfx] = SeqV('list', it.ety, it.len, it.at)
            else:
                g0['_vis' + sfx] = th.empty(T('set', it.ety))
                g0['_all' + sfx] = SetV(it.ety, it.mem)
        elif tag:
            g0['_w' + sfx] = IntV(0)      # iterations completed
        st0 = st.copy()
        for x in types:
            if x in st0.env:
                st0.env[x] = th.coerce(st0.env[x], types[x])
        if lc is not None and lc.init:
            # these facts serve the first check of the invariants only
            si = st0.copy()
            self.run_hints(lc.init, si, self.loop_env(si, g0), label + '/init-hint')
            self.check_inv(lc, si, g0, 'init', label)
            self.st = st0
        else:
            self.check_inv(lc, st0, g0, 'init', label)

        # ---- arbitrary iteration
        def havocked(tagname):
            s2 = st0.copy()
            rebound = {t.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Assign) for tt in x.targets for t in ast.walk(tt) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            self.havoc_vars(s2, [x for x in sorted(names) if x not in tnames or x in types], types, rebound)
            s2.owned |= own
            return s2
        outs = []
        s1 = havocked('it')
        g1, g2 = dict(g0), None
        elem = None
        if it is not None:
            if it.mem is None:
                k = th.fresh(I, '_i')
                s1.assume(z3.And(0 <= k, k < it.len))
                g1['_i' + sfx] = IntV(k)
                g2 = dict(g1)
                g2['_i' + sfx] = IntV(add(k, z3.IntVal(1)))
                if getattr(it, 'rng', None):
                    a, b, stp = it.rng
                    nx = add(a, k if stp == 1 else k * stp if stp != -1 else negi(k))
                    if stp == 1:
                        # name the loop variable itself, with k = x - a
                        x = th.fresh(I, s.target.id if isinstance(s.target, ast.Name) else 'x')
                        s1.assume(x == add(a, k))
                        s1.assume(z3.And(a <= x, x < b))
                        nx = x
                        elem = IntV(x)
                        g1['_i' + sfx] = IntV(sub(x, a))
                        g2['_i' + sfx] = IntV(add(sub(x, a), z3.IntVal(1)))
                    else:
                        elem = it.at(k)
                    g1['_n' + sfx] = IntV(nx)
                    g2['_n' + sfx] = IntV(add(nx, z3.IntVal(stp)))
                else:
                    elem = it.at(k)
            else:
                V = th.fresh(th.sort(T('set', it.ety)), 'vis')
                Vv = th.lift(V, T('set', it.ety))
                x = th.havoc(it.ety, 'el')
                y, ys = th.boundvars(it.ety)
                sub_ = self.with_binders(ys, TRUE, lambda: implies(Vv.mem(y), it.mem(y)))
                s1.assume(th.forall(ys, sub_), 'f')
                s1.assume(it.mem(x))
                if getattr(it, 'distinct', True):
                    s1.assume(neg(Vv.mem(x)))
                g1['_vis' + sfx] = Vv
                g2 = dict(g1)
                g2['_vis' + sfx] = self.set_add(Vv, x)
                g1['_x' + sfx] = x
                g2['_x' + sfx] = x
                elem = getattr(it, 'wrap', lambda z: z)(x)
        else:
            if tag:
                k = th.fresh(I, '_w')
                s1.assume(k >= 0)
                g1['_w' + sfx] = IntV(k)
            g2 = dict(g1)
            if tag:
                g2['_w' + sfx] = IntV(add(k, z3.IntVal(1)))
        # ghosts stay visible inside the loop body (for nested loops)
        self.assume_inv(lc, s1, g1)
        for gk, gv in g1.items():
            s1.env[gk] = gv
        d0 = None
        if isinstance(s, ast.While):
            if lc is not None and lc.dec and not self.probe:
                d0 = self.measure(lc.dec, self.loop_env(s1, g1), None)
            self.st = s1
        pre = {x: s1.env[x] for x in types if x in s1.env}
        if isinstance(s, ast.For) or True:
            res = enter(s1, g1, elem) if self.feasible(s1) else []
        for kind, s3, v in res:
            if kind in ('next', 'continue'):
                for x in types:
                    if x in s3.env:
                        s3.env[x] = th.coerce(s3.env[x], types[x])
                    elif x in st0.env:
                        raise Unsupported('variable %s lost in loop' % x)
                for x in (lc.fix if lc is not None else ()):
                    if isinstance(s3.env.get(x), (SeqV, SetV, MapV)) and not self.probe:
                        w = s3.env[x]
                        t = th.reify(w, w.ty)
                        c = th.fresh(t.sort(), x)
                        th.mark(c, w.ty) if w.ty.k != 'set' else None
                        th.fact(c == t, {c.decl().name()})
                        s3.env[x] = th.lift(c, w.ty)
                if lc is not None and lc.hints:
                    self.st = s3
                    e = self.loop_env(s3, g2)
                    e.update({k2 + '0': v2 for k2, v2 in g1.items()})
                    e.update({k2 + '0': v2 for k2, v2 in pre.items() if k2 + '0' not in e})
                    self.run_hints(lc.hints, s3, e, label + '/hint')
                self.check_inv(lc, s3, g2, 'preserved', label)
                if getattr(it, 'keepkeys', None):
                    m = s3.env[it.keepkeys]
                    y, ys = th.boundvars(it.ety)
                    self.ob('%s/keys of %s unchanged during iteration' % (label, it.keepkeys), th.forall(ys, self.with_binders(ys, TRUE, lambda: m.dom(y) == it.mem(y))), s3)
                for x in own:
                    if isinstance(s3.env.get(x), (IntV, BoolV, StrV, AbsV)):
                        continue
                    if x not in s3.owned and x in st0.owned and x in self.modified(s.body, containers_only=True, augnames=not isinstance(s3.env.get(x), ObjV))[0]:
                        # the container escaped during the iteration and is mutated by it
                        if not self.rebound_before_mutation(s.body, x):
                            self.ob('%s/frame: %s escapes and is mutated in a later iteration' % (label, x), FALSE, s3)
                if isinstance(s, ast.While) and not self.probe:
                    if d0 is None:
                        self.ob('%s/terminates' % label, FALSE if not self.trivially_terminates(s) else TRUE, s3)
                    else:
                        self.st = s3
                        d1 = self.measure(lc.dec, self.loop_env(s3, g2), None)
                        self.ob('%s/decreases' % label, self.lt_measure(d1, d0), s3)
            elif kind == 'break':
                if lc is not None and lc.brk:
                    self.st = s3
                    e = self.loop_env(s3, g1)
                    e.update({k2 + '0': v2 for k2, v2 in pre.items() if k2 + '0' not in e})
                    self.run_hints(lc.brk, s3, e, label + '/break-hint')
                for gk in g1:
                    s3.env.pop(gk, None) if gk not in st.env else None
                outs.append(('next', s3, None))
            else:
                outs.append((kind, s3, v))
        # ---- exit
        s4 = havocked('exit')
        g4 = dict(g0)
        if it is not None:
            if it.mem is None:
                g4['_i' + sfx] = IntV(it.len)
                if getattr(it, 'rng', None):
                    a, b, stp = it.rng
                    if stp == 1:
                        e1 = b if self.entails_in(s4, a <= b) else z3.If(a <= b, b, a)
                    elif stp == -1:
                        e1 = b if self.entails_in(s4, b <= a) else z3.If(b <= a, b, a)
                    else:
                        e1 = a + stp * it.len
                    g4['_n' + sfx] = IntV(e1)
                # the loop variable keeps its last value
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                    if s.target.id in types or self.entails_in(s4, it.len > 0):
                        last = it.at(sub(it.len, z3.IntVal(1)))
                        if s.target.id in types:
                            s4.env[s.target.id] = th.vite(it.len > 0, th.coerce(last, types[s.target.id]), st0.env.get(s.target.id, last))
                        else:
                            s4.env[s.target.id] = last
                    else:
                        s4.env.pop(s.target.id, None)
            else:
                allset = SetV(it.ety, it.mem, term=getattr(it, 'setterm', None))
                t = th.reify(allset, T('set', it.ety))
                g4['_vis' + sfx] = th.lift(t, T('set', it.ety))
                for x in tnames:
                    s4.env.pop(x, None)
        elif tag:
            k = th.fresh(I, '_w')
            s4.assume(k >= 0)
            g4['_w' + sfx] = IntV(k)
        self.assume_inv(lc, s4, g4)
        if isinstance(s, ast.While):
            self.st = s4
            c = self.truth(self.ev(s.test, s4.env))
            s4.assume(neg(c))
            s4.env = self.narrow(s.test, s4.env, False)
            if z3.is_true(z3.simplify(c)):
                return outs
        if lc is not None and lc.exit:
            self.run_hints(lc.exit, s4, self.loop_env(s4, g4), label + '/exit')
        for gk, gv in g4.items():
            s4.env[gk] = gv
        if s.orelse:
            raise Unsupported('loop else')
        if self.feasible(s4):
            outs.append(('next', s4, None))
        if tag:
            for kind, s3, v in outs:
                if kind == 'next':
                    for x in types:
                        if x in s3.env:
                            s3.env['_out_%s_%s' % (x, tag)] = s3.env[x]
        return outs

    def rebound_before_mutation(self, body, x):
        for b in body:
            if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in b.targets):
                return True
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == x:
                    return False
        return True

    def trivially_terminates(self, s):
        return False

    def entails_in(self, st, f):
        old, self.st = self.st, st
        try:
            return self.entails(f)
        finally:
            self.st = old


class KwV(V):
    """The keyword arguments collected by **name."""
    ty = T('fn')

    def __init__(self, items):
        self.items = items


class OpaqueV(V):
    """A value the contract says nothing about and the function may not look at."""
    ty = T('fn')


class UFuncV(V):
    """Uninterpreted function-valued parameter."""
    def __init__(self, fn):
        self.fn = fn
    ty = T('fn')


def loop_head(n):
    if isinstance(n, ast.For):
        return 'for %s in %s' % (ast.unparse(n.target), ast.unparse(n.iter))
    return 'while %s' % ast.unparse(n.test)


def heads_key(n):
    return (n.lineno, n.col_offset)


def one_point(f):
    """Eliminate existential binders fixed by an equation x == t."""
    if not z3.is_quantifier(f) or not f.is_exists():
        return f
    vs = [z3.Const('op!%s!%d' % (f.var_name(i), i), f.var_sort(i)) for i in range(f.num_vars())]
    body = z3.substitute_vars(f.body(), *reversed(vs))
    # inner existentials first: lift them
    conjs = []

    def flat(x):
        if z3.is_and(x):
            for c in x.children():
                flat(c)
        else:
            conjs.append(x)
    flat(body)
    out = []
    for c in conjs:
        if z3.is_quantifier(c) and c.is_exists():
            c = one_point(c)
            if z3.is_quantifier(c) and c.is_exists():
                ws = [z3.Const('op2!%s!%d' % (c.var_name(i), c.get_id()), c.var_sort(i)) for i in range(c.num_vars())]
                b = z3.substitute_vars(c.body(), *reversed(ws))
                vs = vs + ws
                sub2 = []

                def flat2(x):
                    if z3.is_and(x):
                        for d in x.children():
                            flat2(d)
                    else:
                        sub2.append(x)
                flat2(b)
                out += sub2
                continue
            sub3 = []

            def flat3(x):
                if z3.is_and(x):
                    for d in x.children():
                        flat3(d)
                else:
                    sub3.append(x)
            flat3(c)
            out += sub3
            continue
        out.append(c)
    conjs = out
    changed = True
    while changed:
        changed = False
        for v in list(vs):
            for k, c in enumerate(conjs):
                t = solve_for(c, v)
                if t is not None:
                    conjs = [z3.simplify(z3.substitute(d, (v, t))) for j, d in enumerate(conjs) if j != k]
                    vs = [w for w in vs if not w.eq(v)]
                    changed = True
                    break
            if changed:
                break
    b = conj(conjs) if conjs else TRUE
    return z3.Exists(vs, b) if vs else b


def occurs(v, t):
    return bool(free_consts(t, {v.get_id(): v}))


def solve_for(c, v):
    """c is an equation v == t (or v + k == t): the value of v, else None."""
    if not z3.is_eq(c):
        return None
    a, b = c.arg(0), c.arg(1)
    for x, y in ((a, b), (b, a)):
        if x.eq(v) and not occurs(v, y):
            return y
        if x.sort() == I and occurs(v, x) and not occurs(v, y) and z3.is_add(x):
            rest, found, bad = [], 0, False
            for ch in x.children():
                if ch.eq(v):
                    found += 1
                elif occurs(v, ch):
                    bad = True
                else:
                    rest.append(ch)
            if found == 1 and not bad:
                r = y
                for t in rest:
                    r = r - t
                return r
    return None


def ordered_consts(t, *but):
    """Uninterpreted constants of t in order of first occurrence."""
    skip = {b.get_id() for b in but}
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            go(x.body())
            return
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in skip:
            out.append(x)
        for c in x.children():
            go(c)
    go(t)
    return out
