"""Discharge: dump each obligation to SMT-LIB and run a solver portfolio in parallel."""
import hashlib
import multiprocessing as mp
import os
import select
import signal
import subprocess
import tempfile
import time
import z3
from .theory import conj, neg


def symbols(f, cache={}):
    out, seen, stack = set(), set(), [f]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            for k in range(x.num_patterns()):
                stack.append(x.pattern(k))
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


def relevant(facts, fs):
    """Facts whose defined symbols occur (transitively) in fs."""
    used = set()
    for f in fs:
        used |= symbols(f)
    pend = [(d, f) for d, f in facts]
    chosen = []
    changed = True
    while changed:
        changed = False
        rest = []
        for d, f in pend:
            if d is None or (d <= used if isinstance(d, frozenset) else d & used):
                chosen.append(f)
                used |= symbols(f)
                changed = True
            else:
                rest.append((d, f))
        pend = rest
    return chosen


MULU = z3.Function('mul!u', z3.IntSort(), z3.IntSort(), z3.IntSort())


def has_product(t, seen):
    if t.get_id() in seen:
        return False
    seen[t.get_id()] = t
    if z3.is_quantifier(t):
        return has_product(t.body(), seen)
    if z3.is_mul(t) and t.sort() == z3.IntSort() and sum(1 for c in t.children() if not z3.is_int_value(c)) > 1:
        return True
    return any(has_product(c, seen) for c in t.children())


def no_products(t, memo):
    """t with the products of non-constants as applications of an uninterpreted function."""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t):
        r = t
        if not t.is_lambda() and has_product(t, {}):
            vs = [z3.Const('nv%d!%d' % (i, k), t.var_sort(i)) for i in range(t.num_vars())]
            rv = list(reversed(vs))
            body = no_products(z3.substitute_vars(t.body(), *rv), memo)
            pats = [z3.MultiPattern(*[no_products(z3.substitute_vars(c, *rv), memo) for c in t.pattern(i).children()]) for i in range(t.num_patterns())]
            r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, body, patterns=pats)
    elif z3.is_app(t):
        cs = [no_products(c, memo) for c in t.children()]
        if z3.is_mul(t) and t.sort() == z3.IntSort() and sum(1 for c in cs if not z3.is_int_value(c)) > 1:
            num = [c for c in cs if z3.is_int_value(c)]
            r = None
            for c in [c for c in cs if not z3.is_int_value(c)]:
                r = c if r is None else MULU(r, c)
            for c in num:
                r = c * r
        elif any(not a.eq(b) for a, b in zip(cs, t.children())):
            r = t.decl()(*cs)
        else:
            r = t
    else:
        r = t
    memo[k] = (t, r)
    return r


def to_smt2_products(facts, ob, ext=()):
    """A weaker form of the obligation, without nonlinear arithmetic; None if there is none in it."""
    fs = list(ob.hyps) + [ob.goal]
    memo, out, hit = {}, [], False
    if not has_product(ob.goal, {}) and not any(has_product(h, {}) for h in ob.hyps):
        return None
    for f in relevant(list(facts) + list(ext), fs) + list(ob.hyps) + [neg(ob.goal)]:
        g = no_products(f, memo)
        hit = hit or not g.eq(f)
        out.append(g)
    if not hit:
        return None
    s = z3.Solver()
    x, y = z3.Ints('mx! my!')
    s.add(z3.ForAll([x, y], MULU(x, y) == MULU(y, x), patterns=[MULU(x, y)]))
    s.add(z3.ForAll([x, y], z3.Implies(x == 0, MULU(x, y) == 0), patterns=[MULU(x, y)]))
    s.add(z3.ForAll([x, y], z3.Implies(x == 1, MULU(x, y) == y), patterns=[MULU(x, y)]))
    for g in out:
        s.add(g)
    return s.to_smt2()


def to_smt2(facts, ob, ext=()):
    hyps = list(ob.hyps)
    goal = ob.goal
    fs = hyps + [goal]
    s = z3.Solver()
    for f in relevant(list(facts) + list(ext), fs):
        s.add(f)
    for h in hyps:
        s.add(h)
    if ob.kind == 'cover':
        pass
    else:
        s.add(neg(goal))
    return s.to_smt2()


Z3_STRATS = {
    'z3-ematch': {'smt.auto_config': False, 'smt.mbqi': False, 'smt.random_seed': 1},
    'z3-default': {'smt.random_seed': 1},
    'z3-ematch2': {'smt.auto_config': False, 'smt.mbqi': False, 'smt.random_seed': 7, 'smt.arith.solver': 2, 'smt.qi.eager_threshold': 100},
    'z3-noaxioms': {'smt.auto_config': False, 'smt.mbqi': False, 'smt.random_seed': 3, 'smt.relevancy': 0},
}


def run_z3(text, strat, timeout):
    """run_z3_here in a child process: z3 does not always honour its own time limit."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = run_z3_here(text, strat, timeout)
            except BaseException as e:
                out = 'error: %s' % str(e)[:120]
            os.write(w, out.encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        ready, _, _ = select.select([r], [], [], timeout + 2)
        if not ready:
            return 'unknown'
        return os.read(r, 4096).decode() or 'unknown'
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


def run_z3_here(text, strat, timeout):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    for k, v in Z3_STRATS[strat].items():
        try:
            s.set(k, v)
        except z3.Z3Exception:
            pass
    s.set('timeout', int(timeout * 1000))
    s.from_string(text)
    r = s.check()
    return str(r)


def run_cvc5(text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', '--seed=1', p], capture_output=True, text=True, timeout=timeout + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


def work(job):
    key, text, ext, kind, scale, deadline, lin = job
    t0 = time.time()
    if deadline and t0 > deadline:
        return key, 'unknown', 'deadline', 0.0, 'deadline'
    if kind == 'cover':
        # the precondition must not be contradictory: "unsat" here is a failure
        r = run_z3(text, 'z3-ematch', 1.5 * scale)
        return key, ('vacuous' if r == 'unsat' else 'ok'), 'z3-ematch', time.time() - t0, r
    last, sat = 'unknown', False
    for strat, to in (('z3-ematch+lin', 3), ('z3-ematch', 4), ('z3-default', 3), ('z3-ematch+ext', 6), ('z3-default+ext', 3), ('cvc5', 12), ('z3-ematch2', 8), ('z3-noaxioms', 8), ('z3-default', 6)):
        if deadline and time.time() > deadline:
            break
        if sat and not strat.endswith('+ext') or strat.endswith('+lin') and lin is None:
            continue
        try:
            r = run_cvc5(text, to * scale) if strat == 'cvc5' else run_z3(ext if strat.endswith('+ext') else lin if strat.endswith('+lin') else text, strat.split('+')[0], to * scale)
        except z3.Z3Exception as e:
            r = 'error: %s' % str(e)[:120]
        if r == 'unsat':
            return key, 'proved', strat, time.time() - t0, r
        if r == 'sat' and strat == 'z3-default':
            sat = True        # not decisive: the base text leaves out extensionality
        if r == 'sat' and strat == 'z3-default+ext':
            return key, 'refuted', strat, time.time() - t0, r
        last = r
    return key, 'unknown', 'portfolio', time.time() - t0, last


def discharge(units, procs=8, scale=1.0, verbose=False, deadline=None):
    """Returns {(unit name, ob name): (status, backend, seconds)}."""
    res = {}
    jobs = []
    dedup = {}
    for u in units:
        for ob in u.obs:
            key = (u.name, ob.name)
            if ob.kind != 'cover':
                g = z3.simplify(ob.goal)
                if z3.is_true(g):
                    res[key] = ('proved', 'simplifier', 0.0)
                    continue
            text = to_smt2(u.facts, ob)
            h = hashlib.sha256((ob.kind + text).encode()).hexdigest()
            if h in dedup:
                dedup[h].append(key)
                continue
            dedup[h] = [key]
            jobs.append((h, text, to_smt2(u.facts, ob, u.ext) if ob.kind != 'cover' else text, ob.kind, scale, deadline, to_smt2_products(u.facts, ob) if ob.kind != 'cover' else None))
    if jobs:
        with mp.get_context('fork').Pool(procs, maxtasksperchild=20) as pool:
            for h, status, backend, dt, raw in pool.imap_unordered(work, jobs, chunksize=1):
                for key in dedup[h]:
                    res[key] = (status, backend, dt)
                if verbose and status not in ('proved', 'ok'):
                    print('   ', dedup[h][0], status, '%.1fs' % dt, raw, flush=True)
    return res
