"""Ownership conditions of memoized values (C17), one obligation per table, decorated function and caller.

A value handed out by a memoized function is shared with the memo table.  The conditions, checked on the
AST of every module of the tree on every run:
  table(X)   the table X of `@cached_value(X)` is an empty literal, is named by one decorator, and by nothing else;
  sealed(F)  a memoized F is not a generator (a generator would be exhausted by its first reader);
  frame(G)   no function G modifies a value that it obtained from a memoized function, or part of it, or a default argument.
frame(G) follows local names only (assignment, unpacking, iteration, subscripts, dictionary views, closures of G)."""
import ast
from .repo import walk_own

MUT = {'append', 'extend', 'insert', 'add', 'update', 'remove', 'discard', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'setdefault',
       'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'appendleft', 'popleft'}
VIEWS = {'items', 'values', 'keys', 'get', '__getitem__'}
# builtins that build a new container around the same elements
SHALLOW = {'list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'dict', 'filter', 'chain', 'copy', 'frozenset', 'defaultdict', 'product'}


def tables(repo):
    """(module, table) -> decorated functions."""
    out = {}
    for fn in repo.fns.values():
        if fn.cached is not None:
            mod, name = fn.mod, fn.cached
            imp = repo.imports.get(mod, {}).get(name)
            out.setdefault(imp if imp and imp[1] else (mod, name), []).append(fn)
    return out


def shared_functions(repo):
    """Names of functions that return a value that stays in a memo table."""
    dicts = {(m, n) for m, g in repo.globals.items() for n, v in g.items() if '.' not in n and (isinstance(v, ast.Dict) or isinstance(v, ast.Call) and ast.unparse(v.func) in ('dict', 'defaultdict'))}
    shared = {fn.node.name for fn in repo.fns.values() if fn.cached is not None}
    frames = {}
    changed = True
    while changed:
        changed = False
        for fn in repo.fns.values():
            if fn.node.name in shared or fn.node.name.startswith('__'):
                continue
            loc = {n for m, n in dicts if m == fn.mod or repo.imports.get(fn.mod, {}).get(n) == (m, n)}
            f = Flow(fn, shared, loc, free(repo, fn))
            if f.rets == 2:
                shared.add(fn.node.name)
                changed = True
    return shared, dicts


# numbers of arguments with which the methods of the built-in containers are called
ARITY = {'append': (1,), 'extend': (1,), 'insert': (2,), 'add': (1,), 'update': None, 'remove': (1,), 'discard': (1,), 'pop': (0, 1, 2), 'popitem': (0,), 'clear': (0,), 'sort': None,
         'reverse': (0,), 'setdefault': (1, 2), 'difference_update': None, 'intersection_update': None, 'symmetric_difference_update': (1,), '__setitem__': (2,), '__delitem__': (1,),
         'appendleft': (1,), 'popleft': (0,)}


def free(repo, fn):
    """Names that denote functions when called plainly in fn."""
    return {f.node.name for f in repo.fns.values() if f.mod == fn.mod and (f.cls is None or f.outer)} | set(repo.imports.get(fn.mod, {}))


class Flow:
    """Forward analysis of fn: names that may denote a shared value (2) or a fresh container of shared values (1)."""
    def __init__(self, fn, shared, tabs=(), free=frozenset(), defaults=False):
        self.fn, self.shared, self.tabs, self.free = fn, shared, set(tabs), free
        self.bad, self.rets = [], 0
        self.env = {}
        # a mutable default value is shared by all calls
        a = fn.node.args
        for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if defaults and isinstance(d, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.Call)):
                self.env[p.arg] = 2
        self.block(fn.node.body)

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, *envs):
        return {k: max(e.get(k, 0) for e in envs) for e in envs for k in e}

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                # a closure: its free names have any level they have so far
                keep = dict(self.env)
                r = self.rets
                for a in s.args.args + ([s.args.vararg] if s.args.vararg else []):
                    self.env[a.arg] = 0
                self.block(s.body)
                self.env, self.rets = keep, r
            return
        if isinstance(s, ast.If):
            self.expr(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1, self.env = self.env, e0
            self.block(s.orelse)
            self.env = self.join(e1, self.env)
        elif isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test)
            for _ in range(6):
                e0 = dict(self.env)
                if isinstance(s, ast.For):
                    self.bind(s.target, 2 if self.level(s.iter) else 0)
                self.block(s.body)
                self.env = self.join(e0, self.env)
                if self.env == e0:
                    break
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            for h in s.handlers:
                e1 = self.env
                self.env = self.join(e0, e1)
                self.block(h.body)
                self.env = self.join(e1, self.env)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, self.level(i.context_expr))
            self.block(s.body)
        elif isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.target(t, s)
            pairs = []
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    pairs += [(x, self.level(y)) for x, y in zip(t.elts, s.value.elts)]
                else:
                    pairs.append((t, self.level(s.value)))
            for t, lv in pairs:
                self.bind(t, lv)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.target(s.target, s)
                self.bind(s.target, self.level(s.value))
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            if isinstance(s.target, ast.Name):
                if self.level(s.target) == 2 and (isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)) or self.containerish(s.value)):
                    self.bad.append(s)
                if isinstance(s.op, ast.Add) and self.level(s.value) and self.containerish(s.value):
                    self.bind(s.target, max(1, self.level(s.target)))
            else:
                self.target(s.target, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.target(t, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value)
                self.rets = max(self.rets, self.level(s.value))
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x)

    def target(self, t, s):
        for x in ast.walk(t):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and self.level(x.value) == 2:
                self.bad.append(s)

    def expr(self, e):
        """Writes inside an expression."""
        for n in ast.walk(e):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if self.level(g.iter):
                        self.bind(g.target, 2)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, self.level(n.value))
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and self.level(n.func.value) == 2:
                ar = ARITY.get(n.func.attr)
                if ar is None or len(n.args) in ar or any(isinstance(a, ast.Starred) for a in n.args):
                    self.bad.append(n)

    def bind(self, t, lv):
        if isinstance(t, ast.Name):
            self.env[t.id] = lv
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, 2 if lv else 0)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, lv)

    # ---------------------------------------------------------------- expressions
    def level(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, 0)
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in self.shared and (isinstance(f, ast.Attribute) or name in self.free):
                return 2
            if isinstance(f, ast.Attribute) and name in VIEWS:
                return self.level(f.value)
            if name in SHALLOW:
                return 1 if any(self.level(a) for a in e.args) or isinstance(f, ast.Attribute) and self.level(f.value) else 0
            return 0
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Name) and e.value.id in self.tabs:
                return 2
            if isinstance(e.slice, ast.Slice):
                return 1 if self.level(e.value) else 0
            return 2 if self.level(e.value) else 0
        if isinstance(e, ast.IfExp):
            return max(self.level(e.body), self.level(e.orelse))
        if isinstance(e, ast.BoolOp):
            return max(self.level(v) for v in e.values)
        if isinstance(e, (ast.Tuple, ast.List)):
            return 1 if any(self.level(x) for x in e.elts) else 0
        if isinstance(e, (ast.NamedExpr, ast.Starred)):
            return self.level(e.value)
        return 0

    def containerish(self, e):
        """x += e with x shared extends a list in place when e is a container."""
        if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.GeneratorExp, ast.Dict)):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'set', 'sorted', 'range', 'reversed')


def conditions(repo):
    """(name, holds, explanation) for every condition."""
    out = []
    tabs = tables(repo)
    mentions = {}
    for m, tree in repo.mods.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Name):
                mentions.setdefault((m, n.id), []).append(n)
            elif isinstance(n, ast.Attribute):
                mentions.setdefault(('.', n.attr), []).append(n)
    for (m, x), fns in sorted(tabs.items()):
        node = repo.globals.get(m, {}).get(x)
        lit = isinstance(node, ast.Dict) and not node.keys or isinstance(node, ast.Call) and ast.unparse(node) == 'dict()'
        uses = len([n for n in mentions.get((m, x), []) if isinstance(n.ctx, ast.Load)]) + len(mentions.get(('.', x), []))
        stores = len([n for n in mentions.get((m, x), []) if not isinstance(n.ctx, ast.Load)])
        others = [k for k in repo.mods if k != m and any(v == (m, x) for v in repo.imports.get(k, {}).values())]
        ok = lit and len(fns) == 1 and uses == 1 and stores == 1 and not others
        out.append(('table(%s.%s)' % (m, x), bool(ok), 'empty literal: %s; decorators: %s; other uses: %d; other modules: %s' % (
            bool(lit), ', '.join(f.qual for f in fns), uses - len(fns) + stores - 1, ', '.join(others))))
    for fns in tabs.values():
        for fn in fns:
            out.append(('sealed(%s)' % fn.qual, not fn.is_gen, 'a memoized generator is exhausted by its first reader'))
    shared, dicts = shared_functions(repo)
    for q, fn in sorted(repo.fns.items()):
        if fn.outer:
            continue
        loc = {n for m, n in dicts if m == fn.mod or repo.imports.get(fn.mod, {}).get(n) == (m, n)}
        f = Flow(fn, shared, (), free(repo, fn), True)
        names = {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None) for n in ast.walk(fn.node) if isinstance(n, ast.Call)}
        a = fn.node.args
        if not names & shared and not any(isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)) for d in a.defaults + a.kw_defaults):
            continue
        bad = [ast.unparse(n).split('\n')[0] for n in f.bad]
        out.append(('frame(%s)' % q, not bad, 'modifies a memoized (or default) value: ' + '; '.join(bad[:3])))
    return out, shared
