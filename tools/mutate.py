"""python3-vt tools/mutate.py COV.json OUT.json [--file F] [--func Q] [--per N] [--seed S]
Plants small random changes in the functions the bounded groups reach, one at a time, and lists those no group notices.
The changed tree lives in a scratch folder; /repo is only read. COV.json: group -> {secs, lines, props}."""
import ast
import copy
import importlib
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from oracles import base


def arg(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d


SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def sites(fn):
    """(line, description, apply) for every change of one function."""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assert,)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            skip.update(id(m) for m in ast.walk(n))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', None)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for new in SWAP.get(type(o), []):
                    out.append((n, 'cmp %s->%s' % (type(o).__name__, new.__name__), lambda m, k=k, new=new: m.ops.__setitem__(k, new())))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                out.append((n, 'const %d->%d' % (n.value, n.value + d), lambda m, d=d: setattr(m, 'value', m.value + d)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, 'not bool', lambda m: setattr(m, 'value', not m.value)))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            new = ast.Sub if isinstance(n.op, ast.Add) else ast.Add
            out.append((n, 'arith', lambda m, new=new: setattr(m, 'op', new())))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((n, 'and/or', lambda m, new=new: setattr(m, 'op', new())))
            for k in range(len(n.values)):
                out.append((n, 'drop operand %d' % k, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, m.values[1 - k])))
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                out.append((n.test, 'cond %s' % v, ('parent', n, lambda m, v=v: setattr(m, 'test', ast.Constant(v)))))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((n.ifs[0], 'drop filter', ('parent', n, lambda m: m.ifs.pop(0))))
        elif isinstance(n, (ast.Continue, ast.Break)):
            pass
        if hasattr(n, 'body') and isinstance(n.body, list) or hasattr(n, 'orelse') and isinstance(getattr(n, 'orelse'), list):
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for k, s in enumerate(b):
                        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
                            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print'):
                                out.append((s, 'delete', ('parent', n, lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass()))))
    return out


def main():
    cov = json.load(open(sys.argv[1]))
    outf = sys.argv[2]
    rng = random.Random(int(arg('--seed', 1)))
    per = int(arg('--per', 12))
    onlyf, onlyq = arg('--file', ''), arg('--func', '')
    for f in sorted(os.listdir(os.path.join(HERE, 'oracles'))):
        if f.startswith('o_') and f.endswith('.py'):
            importlib.import_module('oracles.' + f[:-3])
    G = {}
    for fs in base.GROUPS.values():
        for f in fs:
            G[f.__module__.split('.')[-1] + '.' + f.__name__] = f
    bylines = {}
    for g, v in cov.items():
        for f, l in v['lines']:
            bylines.setdefault((f, l), set()).add(g)
    muts = []
    for file in sorted({f for f, l in bylines}):
        if onlyf and file != onlyf:
            continue
        src = open('/repo/' + file).read()
        tree = ast.parse(src)
        stack = [(tree, '')]
        fns = []
        while stack:
            n, q = stack.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef,)):
                    fns.append((c, q + c.name))
                elif isinstance(c, ast.ClassDef):
                    stack.append((c, q + c.name + '.'))
        for fn, q in fns:
            if onlyq and onlyq not in q:
                continue
            ss = []
            for i, (n, d, ap) in enumerate(sites(fn)):
                gs = set()
                for l in range(n.lineno, n.end_lineno + 1):
                    gs |= bylines.get((file, l), set())
                body = set()
                for l in range(fn.body[0].lineno, fn.end_lineno + 1):
                    body |= bylines.get((file, l), set())
                if gs:
                    ss.append((i, n.lineno, d, sorted(gs, key=lambda g: cov[g]['secs'])))
            rng.shuffle(ss)
            for i, ln, d, gs in ss[:per]:
                muts.append((file, q, i, ln, d, gs))
    print(len(muts), 'changes')
    rng.shuffle(muts)
    live, res, t0 = {}, [], time.time()
    budget = float(arg('--secs', 1e9))
    while muts or live:
        if time.time() - t0 > budget:
            muts = []
        while muts and len(live) < int(arg('--jobs', 8)):
            m = muts.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = one(m, G, cov)
                with os.fdopen(w, 'wb') as h:
                    h.write(pickle.dumps(out))
                os._exit(0)
            os.close(w)
            live[pid] = (m, r)
        pid, _ = os.wait()
        m, r = live.pop(pid)
        with os.fdopen(r, 'rb') as h:
            data = h.read()
        k = pickle.loads(data) if data else 'died'
        res.append(m[:5] + (k,))
        if len(res) % 200 == 0:
            print(len(res), sum(1 for x in res if not x[5]), '%.0fs' % (time.time() - t0), flush=True)
    json.dump(res, open(outf, 'w'), indent=0)
    print('unnoticed', sum(1 for x in res if not x[5]), 'of', len(res))
    for file, q, i, ln, d, k in sorted(res):
        if not k:
            print('%s:%d %s  %s | %s' % (file, ln, q, d, open('/repo/' + file).read().split('\n')[ln - 1].strip()))


def one(m, G, cov):
    file, q, i, ln, d, gs = m
    tree = ast.parse(open('/repo/' + file).read())
    n = tree
    for p in q.split('.'):
        n = [c for c in n.body if getattr(c, 'name', None) == p][-1]
    node, _, ap = sites(n)[i]
    if isinstance(ap, tuple):
        ap[2](ap[1])
    else:
        ap(node)
    ast.fix_missing_locations(tree)
    D = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        for f in os.listdir('/repo'):
            if f.endswith('.py'):
                if f != file:
                    os.symlink('/repo/' + f, os.path.join(D, f))
        for f in ('data',):
            if os.path.isdir('/repo/' + f):
                os.symlink('/repo/' + f, os.path.join(D, f))
        with open(os.path.join(D, file), 'w') as h:
            h.write(ast.unparse(tree))
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.path.insert(0, D)
        try:
            ns = base.namespace()
        except Exception:
            return 'import'
        for g in gs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                base.run_child(G[g], ns, 'quick', 1, min(G[g].limit, 10 + 10 * cov[g]['secs']), w)
            os.close(w)
            with os.fdopen(r, 'rb') as h:
                data = h.read()
            os.waitpid(pid, 0)
            o = pickle.loads(data) if data else {'witness': 1}
            if o['witness'] or o.get('crash'):
                return g
        return ''
    finally:
        shutil.rmtree(D, ignore_errors=True)


main()
