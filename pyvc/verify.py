"""Verification of one contract / lemma: builds its obligations."""
import ast
import z3
from .values import *
from .theory import *
from .engine import Exec, Frame, St, Ob, UFuncV, OpaqueV, KwV, TRUE, FALSE
from .repo import walk_own, prepare


class Unit:
    """Obligations of one function contract or lemma."""
    def __init__(self, name, kind, props):
        self.name, self.kind, self.props = name, kind, props
        self.obs, self.error, self.callees, self.inlined, self.lemmas = [], None, [], [], []
        self.assumptions, self.facts, self.sha, self.src, self.notes = [], [], None, None, []
        self.ext = []
        self.owner = []    # (condition, holds, why): ownership conditions, decided syntactically
        self.requires, self.ensures = [], []


def ufunc(ex, name, argtys, rty):
    def fn(args):
        # f(cls, *args): the class is the same for every call
        args = [a for a in args if not isinstance(a, ClassV)]
        if args and isinstance(args[-1], StarV):
            if len(args) != 1 or len(argtys) != 1:
                raise Unsupported('starred argument of a function value')
            args = [args[0].seq]
        f = ex.symfn('u_' + name, argtys, rty)
        return ex.th.lift(f(*[ex.th.reify(a, t) for a, t in zip(args, argtys)]), rty)
    return UFuncV(fn)


def param_value(ex, p, t):
    if t == '?':
        return OpaqueV()
    if t.startswith('='):
        return ex.const_param(t[1:])
    if t.startswith('{'):
        return ex.kw_param(t)
    if t.startswith('fn('):
        a, r = t[3:].split('->')
        return ufunc(ex, p, [parse_type(x) for x in a.rstrip(' )').split(';')], parse_type(r.strip()))
    ty = parse_type(t)
    v = ex.th.havoc(ty, p)
    return v


def verify(repo, reg, c):
    u = Unit(c.name, 'function', c.props)
    u.requires, u.ensures = c.requires, c.ensures or ([c.macro] if c.macro else [c.yields or c.yseq])
    prepare(repo, reg)
    fn = repo.fns.get(c.qual)
    if fn is None:
        u.error = 'function %s does not exist in the current tree' % c.qual
        return u
    u.sha, u.src = fn.sha, fn.src
    if fn.bad and fn.bad != 'decorator %s' % c.decorated:
        u.error = '%s: %s' % (c.qual, fn.bad)
        return u
    if repo.problems.get(fn.mod):
        u.error = 'module %s: %s' % (fn.mod, '; '.join(repo.problems[fn.mod][:3]))
        return u
    ex = Exec(repo, reg)
    try:
        run(ex, repo, reg, c, fn)
    except Unsupported as e:
        u.error = 'unsupported: %s' % e
    except z3.Z3Exception as e:
        u.error = 'internal (z3): %s' % str(e)[:200]
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
        import traceback
        u.error = 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    u.obs = ex.obs
    u.facts, u.ext = ex.th.facts, ex.th.ext_facts()
    u.callees = sorted(ex.callees)
    u.inlined = sorted(ex.inlined)
    u.lemmas = sorted(ex.lemmas_used)
    u.notes = ex.notes
    u.assumptions = sorted(ex.assumptions)
    return u


def run(ex, repo, reg, c, fn):
    env = {}
    building = None
    a = fn.node.args
    if a.kwonlyargs or a.posonlyargs:
        raise Unsupported('signature of %s' % c.qual)
    names = [x.arg for x in a.args] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    for i, p in enumerate(names):
        if p in c.params:
            env[p] = param_value(ex, p, c.params[p])
        elif i == 0 and fn.kind == 'classmethod':
            env[p] = ClassV(fn.cls)
        elif i == 0 and fn.node.name == '__init__':
            short = c.returns if reg.classinfo.get(c.returns) == fn.cls else next((k for k, q in reg.classinfo.items() if q == fn.cls), None)
            if short is None:
                raise Unsupported('class %s has no object model' % fn.cls)
            env[p] = ObjV(short, {}, building=True)
            building = p
        else:
            # parameter not mentioned: its default
            d = len(a.args) - len(a.defaults)
            if a.vararg and p == a.vararg.arg:
                env[p] = EmptyV('tuple')
            elif a.kwarg and p == a.kwarg.arg:
                env[p] = KwV({})
            elif d <= i < len(a.args):
                ex.frame = Frame(c.qual, fn.mod, fn.cls, c)
                env[p] = ex.ev(a.defaults[i - d], {})
            else:
                raise Unsupported('parameter %s of %s has no type in the contract' % (p, c.qual))
    for p in c.params:
        if p not in names:
            raise Unsupported('contract of %s names a parameter %s that does not exist' % (c.qual, p))
    outer = None
    if fn.outer:
        outer = {}
        for p, t in c.captures.items():
            outer[p] = param_value(ex, p, t)
        # enclosing cls
    ex.frame = Frame(c.qual, fn.mod, fn.cls, c, outer)
    st = St(dict(env))
    if outer:
        for p, v in outer.items():
            if p not in env:
                st.env[p] = v
    if fn.outer and 'cls' not in st.env:
        st.env['cls'] = ClassV(fn.cls)
    ex.old_env = dict(st.env)
    ex.entry = c
    ex.entry_frame = ex.frame
    ex.st = st
    if building is None:
        ex.memo_enter(fn, st)
    st.owned = set(st.owned) | set(c.modifies) | ({building} if building else set())
    for r in c.requires:
        st.assume(ex.spec_bool(r, st.env))
    for h in c.uses:
        st.assume(ex.spec_bool(h, st.env), 'f')
    if c.dec:
        ex.entry_measure = ex.measure(c.dec, st.env, None)
        # the measure itself must be bounded below
        for k, d in enumerate(ex.entry_measure):
            ex.ob('measure-nonnegative[%d]' % k, d >= 0, st)
    ex.ob('cover:precondition', TRUE, st, kind='cover')
    gen = c.yields is not None or c.yseq is not None
    if gen:
        if not fn.is_gen and not c.yseq and not c.yields:
            raise Unsupported('not a generator')
        ety = parse_type(c.ytype)
        if c.yseq is not None:
            st.env['_Y'] = ex.th.empty(T('list', ety))
        else:
            st.env['_Y'] = ex.th.empty(T('set', ety))
        ex.old_env = dict(ex.old_env)
        if not fn.is_gen:
            raise Unsupported('%s is no longer a generator' % c.qual)
    elif fn.is_gen:
        raise Unsupported('%s became a generator' % c.qual)
    outs = ex.exec_block(fn.node.body, st)
    nret = 0
    for kind, s, v in outs:
        ex.st = s
        ex.frame = Frame(c.qual, fn.mod, fn.cls, c, outer)
        e0 = dict(ex.old_env)
        if kind == 'raise':
            if c.partial:
                continue
            if c.raises:
                ex.ob('raises', ex.spec_bool(c.raises, e0), s)
            else:
                ex.ob('no-exception', FALSE, s)
            continue
        if kind in ('break', 'continue'):
            raise Unsupported('stray %s' % kind)
        nret += 1
        if kind == 'next':
            v = NoneV()
        if not building:
            ex.memo_exit(fn, s, 'memo-invariant at return')
        if building:
            if not isinstance(v, NoneV):
                raise Unsupported('constructor returns a value')
            o = s.env[building]
            model = reg.classes[o.cls]
            if set(o.fields) != set(model):
                raise Unsupported('constructor of %s sets the attributes %s' % (fn.cls, ', '.join(sorted(o.fields))))
            fs = {f: ex.fit(ex.mat_any(o.fields[f]), t) for f, t in model.items()}
            bad = [f for f in fs if fs[f] is None]
            if bad:
                ex.ob('attribute-type %s' % bad[0], FALSE, s)
                continue
            v = ObjV(o.cls, fs)
            e0.pop(building, None)
            ex.memo_exit(fn, s, 'memo-invariant at return', v)
        if c.raises:
            ex.ob('returns-normally', neg(ex.spec_bool(c.raises, e0)), s)
        ghosts = {k: x for k, x in s.env.items() if k.startswith('_')}
        e = dict(s.env)
        e.update(e0)
        if gen:
            ex.run_hints(c.prove, s, e, 'prove')
            if c.yseq is not None:
                want = ex.mat_any(ex.spec_eval(c.yseq, e))
                got = s.env['_Y']
                ex.ob('yields', ex.th.eq(ex.th.coerce(ex.materialize(want, 'list'), got.ty), got), s)
            else:
                ety = parse_type(c.ytype)
                x, cs = ex.th.boundvars(ety, 'y')
                lam = ast.parse(c.yields, mode='eval').body
                e2 = dict(e)
                ex.bind_lambda(lam, [x], e2)
                want = ex.spec_bool(lam.body, e2)
                got = s.env['_Y'].mem(x)
                if '_y' in ''.join(c.hints):
                    pass
                ex.ob('yields-complete', ex.th.forall(cs, implies(want, got)), s)
            continue
        if isinstance(v, (CompV, IterV)):
            rt = parse_type(c.returns) if c.returns else None
            v = ex.materialize(v, rt.k if rt is not None and rt.k in ('list', 'tuple') else 'list')
        rty = parse_type(c.returns) if c.returns else None
        if rty is not None:
            w = ex.fit(v, rty)
            if w is None and isinstance(v, (SeqV, TupV, EmptyV)) and getattr(v, 'kind', 'tuple') != rty.k and rty.k in ('list', 'tuple'):
                ex.ob('return-type %s' % rty, FALSE, s)
                continue
            if w is None:
                ex.ob('return-type %s, got %s' % (rty, v.ty), FALSE, s)
                continue
            v = w
        e['result'] = v
        for x, vv in s.env.items():
            if x not in e:
                e[x] = vv
        for x in c.modifies:
            e['new_' + x] = s.env[x]
        e['_final'] = v
        ex.run_hints(c.hints, s, e, 'hint')
        ex.run_hints(c.prove, s, e, 'prove')
        if c.macro is not None:
            want = ex.mat_any(ex.spec_eval(c.macro, e))
            want = ex.th.coerce(want, rty) if rty is not None else want
            if isinstance(want, SeqV) and isinstance(v, SeqV) and want.kind != v.kind:
                want = SeqV(v.kind, want.ety, want.len, want._at, term=want.term, items=want.items)
            split_eq(ex, 'ensures-result', v, want, s)
        for k, r in enumerate(c.ensures):
            ex.ob('ensures[%d]' % k, ex.spec_bool(r, e), s)
        for m in c.modifies:
            pass
    if nret == 0 and not c.raises:
        raise Unsupported('no normal return')


def verify_client(repo, reg, cl):
    u = Unit('law ' + cl.name, 'law', cl.props)
    u.requires, u.ensures = cl.requires, cl.ensures
    prepare(repo, reg)
    ex = Exec(repo, reg)
    try:
        if repo.problems.get(cl.mod):
            raise Unsupported('module %s: %s' % (cl.mod, '; '.join(repo.problems[cl.mod][:3])))
        env = {p: param_value(ex, p, t) for p, t in cl.params.items()}
        ex.frame = Frame('law ' + cl.name, cl.mod, None, None)
        st = St(dict(env))
        ex.old_env = dict(env)
        ex.st = st
        for r in cl.requires:
            st.assume(ex.spec_bool(r, env))
        ex.ob('cover:precondition', TRUE, st, kind='cover')
        n = 0
        for kind, s, v in ex.exec_block(cl.code, st):
            if kind != 'next':
                ex.ob('no-exception', FALSE, s)
                continue
            n += 1
            ex.st = s
            e = dict(s.env)
            e.update(env)
            ex.run_hints(cl.uses, s, e, 'uses')
            for k, r in enumerate(cl.ensures):
                ex.ob('ensures[%d]' % k, ex.spec_bool(r, e), s)
        if not n:
            raise Unsupported('the law never ends')
    except Unsupported as e:
        u.error = 'unsupported: %s' % e
    except z3.Z3Exception as e:
        u.error = 'internal (z3): %s' % str(e)[:200]
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
        import traceback
        u.error = 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    u.obs, u.facts, u.ext = ex.obs, ex.th.facts, ex.th.ext_facts()
    u.callees, u.inlined, u.lemmas, u.notes = sorted(ex.callees), sorted(ex.inlined), sorted(ex.lemmas_used), ex.notes
    u.assumptions = sorted(ex.assumptions)
    return u


def split_eq(ex, name, v, want, s):
    if isinstance(v, BoolV) and isinstance(want, BoolV) and not z3.is_true(z3.simplify(v.t)) and not z3.is_false(z3.simplify(v.t)):
        ex.ob(name + '/sound', implies(v.t, want.t), s)
        ex.ob(name + '/complete', implies(want.t, v.t), s)
        return
    if isinstance(v, SetV) and isinstance(want, SetV):
        x, cs = ex.th.boundvars(want.ety)
        a, b = ex.with_binders(cs, TRUE, lambda: (v.mem(x), want.mem(ex.th.coerce(x, want.ety))))
        ex.ob(name + '/sound', ex.th.forall(cs, implies(a, b)), s)
        ex.ob(name + '/complete', ex.th.forall(cs, implies(b, a)), s)
        return
    if isinstance(v, SeqV) and isinstance(want, SeqV) and v.items is None and want.items is None:
        ex.ob(name + '/len', v.len == want.len, s)
        i = ex.th.fresh(I, 'i')
        g = z3.And(0 <= i, i < want.len)
        b = ex.with_binders([i], g, lambda: ex.th.eq(v.at(i), want.at(i)))
        ex.ob(name + '/elements', ex.th.forall([i], implies(g, b)), s)
        return
    ex.ob(name, ex.th.eq(v, want), s)


def verify_lemma(repo, reg, lm):
    u = Unit('lemma ' + lm.name, 'lemma', lm.props)
    u.requires, u.ensures = lm.requires, lm.ensures
    prepare(repo, reg)
    ex = Exec(repo, reg)
    try:
        env = {}
        for p, t in lm.params.items():
            env[p] = param_value(ex, p, t)
        st = St(dict(env))
        ex.st = st
        ex.old_env = dict(env)
        ex.frame = None
        if lm.setind:
            set_induction(ex, lm, env, st)
        else:
            for r in lm.requires:
                st.assume(ex.spec_bool(r, env))
            ex.ob('cover:precondition', TRUE, st, kind='cover')
            if lm.ih:
                d0 = ex.measure(lm.dec, env, None)
                for inst in lm.ih:
                    add_ih(ex, lm, env, st, inst, d0)
            if lm.dec and any('IH(' in h for h in lm.uses):
                d0 = ex.measure(lm.dec, env, None)
                for k, d in enumerate(d0):
                    ex.ob('measure-nonnegative[%d]' % k, d >= 0, st)
                env['IH'] = UFuncV(lambda args: BoolV(ih_at(ex, lm, args, d0)))
            ex.run_hints(lm.uses, st, env, 'uses')
            for k, r in enumerate(lm.ensures):
                ex.ob('ensures[%d]' % k, ex.spec_bool(r, env), st)
    except Unsupported as e:
        u.error = 'unsupported: %s' % e
    except z3.Z3Exception as e:
        u.error = 'internal (z3): %s' % str(e)[:200]
    u.obs, u.facts, u.ext = ex.obs, ex.th.facts, ex.th.ext_facts()
    u.lemmas = sorted(ex.lemmas_used)
    return u


def ih_at(ex, lm, vals, d0):
    """The statement of the lemma at vals, if they are below the measure."""
    e2 = {}
    if len(vals) != len(lm.params):
        raise Unsupported('induction hypothesis arity')
    for (p, t), v in zip(lm.params.items(), vals):
        w = ex.fit(ex.mat_any(v), parse_type(t))
        if w is None:
            raise Unsupported('induction argument %s' % p)
        e2[p] = w
    d1 = ex.measure(lm.dec, e2, None)
    return implies(conj([ex.lt_measure(d1, d0)] + [ex.spec_bool(r, e2) for r in lm.requires]), conj([ex.spec_bool(r, e2) for r in lm.ensures]))


def add_ih(ex, lm, env, st, inst, d0):
    """Induction hypothesis at the argument tuple inst: usable only below the measure."""
    node = ast.parse('(%s,)' % inst, mode='eval').body
    quants = None
    if isinstance(node.elts[0], ast.Lambda) and len(node.elts) == 2 - 1 + 0:
        pass
    vals = [ex.spec_eval(e, env) for e in node.elts]
    e2 = {}
    for (p, t), v in zip(lm.params.items(), vals):
        w = ex.fit(v, parse_type(t)) if not t.startswith('fn(') else v
        if w is None:
            raise Unsupported('induction argument %s' % p)
        e2[p] = w
    d1 = ex.measure(lm.dec, e2, None)
    rq = conj([ex.lt_measure(d1, d0)] + [ex.spec_bool(r, e2) for r in lm.requires])
    en = conj([ex.spec_bool(r, e2) for r in lm.ensures])
    st.assume(implies(rq, en), 'f')


def set_induction(ex, lm, env, st):
    """Finite-set induction on parameter lm.setind: empty set, and insertion of a new element."""
    p = lm.setind
    ty = parse_type(lm.params[p])
    th = ex.th
    st0 = st.copy()
    e0 = dict(env)
    e0[p] = th.empty(ty)
    ex.st = st0
    for r in lm.requires:
        st0.assume(ex.spec_bool(r, e0))
    for k, r in enumerate(lm.ensures):
        ex.ob('base/ensures[%d]' % k, ex.spec_bool(r, e0), st0)
    st1 = st.copy()
    ex.st = st1
    S = env[p]
    x = th.havoc(ty.a[0], 'x')
    e1 = dict(env)
    e1[p] = ex.set_add(S, x)
    e1['_S'], e1['_x'] = S, x
    st1.assume(neg(S.mem(x)))
    for r in lm.requires:
        st1.assume(ex.spec_bool(r, e1))
    ex.ob('cover:precondition', TRUE, st1, kind='cover')
    rq = conj([ex.spec_bool(r, env) for r in lm.requires])
    en = conj([ex.spec_bool(r, env) for r in lm.ensures])
    st1.assume(implies(rq, en), 'f')
    ex.run_hints(lm.uses, st1, e1, 'uses')
    for k, r in enumerate(lm.ensures):
        ex.ob('step/ensures[%d]' % k, ex.spec_bool(r, e1), st1)
