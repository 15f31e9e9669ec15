"""Contract registry: sidecar contracts, spec macros, spec functions, lemmas."""
import ast
from .values import *


class Contract:
    def __init__(self, qual, params, returns=None, requires=(), ensures=(), variant='', macro=None,
                 raises=None, pure=False, loops=(), dec=None, yields=None, ytype=None, ydistinct=True, yseq=None,
                 props=(), comp_inv=(), locals=None, fresh=True, hints=(), assume_asserts=False, trusted=False,
                 opaque_cls=False, uses=(), timeout=None, note='', modifies=(), group=None, captures=None, split=True, prove=(), calls=None, decorated=None, termeq=False, partial=False):
        self.partial = partial            # partial correctness: says nothing when the function raises or does not return
        self.termeq = termeq              # compare the elements of set comprehensions as terms (same meaning by extensionality)
        self.decorated = decorated         # the contract is on the function before this decorator is applied
        self.calls = dict(calls or {})     # callee name -> hints before the call; its arguments are arg_<parameter>
        self.qual, self.variant = qual, variant
        self.params, self.returns = dict(params), returns
        self.requires, self.ensures = list(requires), list(ensures)
        self.macro, self.raises, self.pure = macro, raises, pure
        self.loops, self.dec = list(loops), dec
        self.yields, self.ytype, self.ydistinct, self.yseq = yields, ytype, ydistinct, yseq
        self.props = list(props)
        self.comp_inv = list(comp_inv)
        self.locals = dict(locals or {})
        self.fresh, self.hints, self.assume_asserts, self.trusted = fresh, list(hints), assume_asserts, trusted
        self.uses = list(uses)
        self.timeout, self.note, self.modifies, self.group = timeout, note, list(modifies), group
        self.captures = dict(captures or {})
        self.prove = list(prove)

    @property
    def name(self):
        return self.qual + ('#' + self.variant if self.variant else '')


class Loop:
    def __init__(self, head, inv=(), dec=None, types=None, hints=(), tag='', exit=(), step=(), fix=(), init=(), brk=()):
        self.init, self.brk = list(init), list(brk)        # hints before the first iteration; hints where the body breaks
        self.fix = list(fix)          # containers named by a term at the end of the body (quantified invariants then have triggers)
        """head: normalised source of the loop header; hints: expressions assumed as
        proved facts (lemma applications) at the end of the body; exit: same at loop exit."""
        self.head, self.inv, self.dec, self.types, self.hints, self.tag, self.exit, self.step = head, list(inv), dec, dict(types or {}), list(hints), tag, list(exit), list(step)


class Macro:
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, ast.parse(body, mode='eval').body
        self.src = body


class SpecFn:
    """Spec function with a recursive definition (unfolded by axiom)."""
    def __init__(self, name, params, returns, body=None, axioms=(), fuel=True):
        self.name, self.params, self.returns = name, [(n, parse_type(t)) for n, t in params.items()], parse_type(returns)
        self.body = ast.parse(body, mode='eval').body if body else None
        self.axioms = list(axioms)
        self.src = body
        self.fuel = fuel


class Fold:
    """Sum over a finite set: name(params, S) = sum of expr over elem in S."""
    def __init__(self, name, params, elem, etype, expr, rty='int'):
        self.rty = parse_type(rty)
        self.name, self.params = name, [(n, parse_type(t)) for n, t in params.items()]
        self.elem, self.etype = elem, parse_type(etype)
        self.expr, self.src = ast.parse(expr, mode='eval').body, expr


class Lemma:
    def __init__(self, name, params, requires=(), ensures=(), dec=None, ih=(), uses=(), props=(), cases=(), setind=None, timeout=None):
        self.name, self.params = name, {n: t for n, t in params.items()}
        self.requires, self.ensures, self.dec, self.ih, self.uses, self.cases = list(requires), list(ensures), dec, list(ih), list(uses), list(cases)
        self.props, self.setind, self.timeout = list(props), setind, timeout


class Client:
    """A law: a straight-line client program over the real functions, run symbolically against
    their contracts (functions without one are executed in place)."""
    def __init__(self, name, mod, params, code, requires=(), ensures=(), props=(), uses=(), locals=None):
        self.name, self.mod, self.params, self.code = name, mod, dict(params), ast.parse(code).body
        self.requires, self.ensures, self.props, self.uses = list(requires), list(ensures), list(props), list(uses)
        self.locals = dict(locals or {})


class Registry:
    def __init__(self):
        self.clients = {}
        self.ignored = {}
        self.fnattrs = {}      # (class, attribute) -> the nested function the constructor stores there
        self.owner = set()     # properties that need the ownership conditions of memoized values
        self.memoattrs = {}    # class -> {attribute: (type, invariant lambda self, v)}
        self.contracts = {}
        self.macros = {}
        self.specfns = {}
        self.folds = {}
        self.lemmas = {}
        self.classes = {}      # object models  Class -> {field: T}
        self.classinfo = {}
        self.absfns = {}
        self.gconsts = {}
        self.gdicts = {}       # module-level memo tables: 'mod.NAME' -> (type, invariant lambda k, v | None)

    def contract(self, qual, **kw):
        c = Contract(qual, **kw)
        self.contracts.setdefault(qual, []).append(c)
        return c

    def define(self, name, params, body):
        assert name not in self.macros and name not in self.specfns, 'spec name %s defined twice' % name
        self.macros[name] = Macro(name, [p.strip() for p in params.split(',')] if params else [], body)

    def specfn(self, name, params, returns, body=None, axioms=(), fuel=True):
        assert name not in self.macros and name not in self.specfns, 'spec name %s defined twice' % name
        self.specfns[name] = SpecFn(name, params, returns, body, axioms, fuel)

    def fold(self, name, params, elem, etype, expr, rty='int'):
        self.folds[name] = Fold(name, params, elem, etype, expr, rty)

    def absfn(self, name, params, returns):
        """Values of the abstract type name are callable, as an unknown but fixed function."""
        self.absfns[name] = ([parse_type(t) for t in params], parse_type(returns))

    def lemma(self, name, **kw):
        self.lemmas[name] = Lemma(name, **kw)

    def memoattr(self, cls, attr, ty, inv):
        """An attribute that only caches a value: None, or a value satisfying the invariant."""
        self.memoattrs.setdefault(cls, {})[attr] = (T('opt', parse_type(ty)), ast.parse(inv, mode='eval').body)

    def client(self, name, **kw):
        self.clients[name] = Client(name, **kw)

    def gdict(self, qual, ty, inv=None):
        self.gdicts[qual] = (parse_type(ty), ast.parse(inv, mode='eval').body if inv else None)

    def gconst(self, qual, ty, src):
        """A module-level constant, defined by the expression src, taken as a fixed value of the type."""
        self.gconsts[qual] = (parse_type(ty), src)

    def model(self, cls, qual, fields, ignore=(), fnattrs=None):
        """ignore: attributes that are not modelled; the statements that set them are skipped (recorded as an assumption)."""
        for a in ignore:
            self.ignored[(cls, a)] = True
        for a, q in (fnattrs or {}).items():
            self.fnattrs[(cls, a)] = q
        self.classes[cls] = {f: parse_type(t) for f, t in fields.items()}
        self.classinfo[cls] = qual
