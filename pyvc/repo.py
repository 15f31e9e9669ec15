"""Mechanical extraction: the AST of /repo's current source, by qualified name."""
import ast
import hashlib
import os
from .values import Unsupported

DECOS = {'classmethod', 'staticmethod', 'property'}


class Fn:
    def __init__(self, qual, node, mod, cls, kind, cached, outer=None):
        self.qual, self.node, self.mod, self.cls, self.kind, self.cached, self.outer = qual, node, mod, cls, kind, cached, outer
        self.src = ast.unparse(node)
        self.sha = hashlib.sha256(self.src.encode()).hexdigest()[:16]
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))


def walk_own(fn):
    """Nodes of a function body, not descending into nested function definitions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack = list(ast.iter_child_nodes(n)) + stack


class MemoAttrs(ast.NodeTransformer):
    """self.attr -> a local name, for attributes that only cache a value (extraction step)."""
    def __init__(self, me, attrs):
        self.me, self.attrs, self.used, self.foreign = me, attrs, set(), set()

    def visit_Attribute(self, n):
        if n.attr in self.attrs:
            if isinstance(n.value, ast.Name) and n.value.id == self.me:
                self.used.add(n.attr)
                return ast.copy_location(ast.Name('memo' + n.attr, n.ctx), n)
            self.foreign.add(n.attr)
        return self.generic_visit(n)


def prepare(repo, reg):
    if getattr(repo, 'prepared', None) is reg:
        return
    repo.prepared = reg
    allattrs = {a for d in reg.memoattrs.values() for a in d}
    for fn in repo.fns.values():
        fn.memo = {}
        for cls, attrs in reg.memoattrs.items():
            if fn.cls == reg.classinfo[cls] and fn.node.args.args:
                tr = MemoAttrs(fn.node.args.args[0].arg, attrs)
                fn.node = tr.visit(fn.node)
                fn.memo = {a: attrs[a] for a in tr.used}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and n.attr in allattrs:
                fn.bad = fn.bad or 'caching attribute %s of another object is used' % n.attr
    # functions from which code that mentions a caching attribute can be reached, by name
    byname = {}
    for fn in repo.fns.values():
        byname.setdefault(fn.node.name, []).append(fn)
    names = {fn.qual: {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(fn.node) if isinstance(n, (ast.Name, ast.Attribute))} for fn in repo.fns.values()}
    reach = {fn.qual for fn in repo.fns.values() if fn.memo and fn.node.name != '__init__'}
    changed = True
    while changed:
        changed = False
        rn = {repo.fns[q].node.name for q in reach} | ({'len'} if any(q.endswith('.__len__') for q in reach) else set())
        for q, ns in names.items():
            if q not in reach and ns & rn:
                reach.add(q)
                changed = True
    repo.memo_reach = reach


class Repo:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.fns = {}
        self.classes = {}      # 'mod.Class' -> (node, [base names])
        self.globals = {}      # mod -> {name: ast expr}
        self.imports = {}      # mod -> {name: (mod, name) | (mod, None)}
        self.problems = {}
        for f in sorted(os.listdir(root)):
            if not f.endswith('.py'):
                continue
            mod = f[:-3]
            try:
                src = open(os.path.join(root, f), encoding='utf-8').read()
                tree = ast.parse(src)
            except SyntaxError:
                continue
            self.mods[mod] = tree
            self.index(mod, tree)

    def index(self, mod, tree):
        self.globals[mod] = {}
        self.imports[mod] = {}
        for n in tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[mod][a.asname or a.name] = (a.name, None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[mod][a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.FunctionDef):
                self.addfn('%s.%s' % (mod, n.name), n, mod, None)
            elif isinstance(n, ast.ClassDef):
                q = '%s.%s' % (mod, n.name)
                self.classes[q] = (n, [ast.unparse(b) for b in n.bases])
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        self.addfn('%s.%s' % (q, m.name), m, mod, q)
                    elif isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                        self.globals[mod]['%s.%s' % (n.name, m.targets[0].id)] = m.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals[mod][t.id] = n.value
                    else:
                        # Partition.get = ..., CLASS.attr = ...: rebinding outside the class body
                        self.problems.setdefault(mod, []).append('module-level assignment to %s' % ast.unparse(t))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                pass
            elif isinstance(n, (ast.Pass,)):
                pass
            elif isinstance(n, ast.If) and isinstance(n.test, ast.Constant):
                pass
            else:
                self.problems.setdefault(mod, []).append('module-level statement %s' % ast.unparse(n)[:80])

    def addfn(self, qual, node, mod, cls, outer=None):
        kind, cached = ('method' if cls and not outer else 'function'), None
        bad = None
        for d in node.decorator_list:
            s = ast.unparse(d)
            if s == 'classmethod':
                kind = 'classmethod'
            elif s == 'staticmethod':
                kind = 'staticmethod'
            elif s == 'property':
                kind = 'property'
            elif s.startswith('cached_value('):
                kind, cached = 'classmethod', s[len('cached_value('):-1]
            else:
                bad = 'decorator %s' % s
        if qual in self.fns and outer is None:
            bad = 'defined twice'
        fn = Fn(qual, node, mod, cls, kind, cached, outer)
        fn.bad = bad
        self.fns[qual] = fn
        for n in walk_own(node):
            if isinstance(n, ast.FunctionDef):
                self.addfn(qual + '.' + n.name, n, mod, cls, outer=qual)

    def resolve_class(self, mod, name):
        if '%s.%s' % (mod, name) in self.classes:
            return '%s.%s' % (mod, name)
        imp = self.imports.get(mod, {}).get(name)
        if imp and imp[1] and '%s.%s' % imp in self.classes:
            return '%s.%s' % imp
        if imp and imp[1] and imp[0] in self.mods and imp[0] != mod and imp[1] not in self.globals[imp[0]]:
            # a name that the other module imports itself
            return self.resolve_class(imp[0], imp[1])
        return None

    def method(self, cls, name):
        """Qualified name of the method `name` of class `cls`, following bases."""
        seen = set()
        while cls and cls not in seen:
            seen.add(cls)
            q = '%s.%s' % (cls, name)
            if q in self.fns:
                return q
            mod, cn = cls.split('.')
            # alias such as __radd__ = __add__
            alias = self.globals[mod].get('%s.%s' % (cn, name))
            if alias is not None and hasattr(alias, 'id') and '%s.%s' % (cls, alias.id) in self.fns:
                return '%s.%s' % (cls, alias.id)
            bases = self.classes[cls][1]
            cls = self.resolve_class(mod, bases[0]) if bases else None
        return None
