"""python3-vt check.py <property> [--thorough]: decides one property on the current tree.

1. every obligation of every contract tagged with the property (and of the contracts they
   rely on, transitively) is generated from the source in the tree and discharged;
2. the bounded witness search evaluates the real code against independent definitions;
3. exit 0 if 1 and 2 hold, exit 1 with a VIOLATION line otherwise."""
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def closure(reg, prop):
    """Contracts tagged with the property, by name."""
    return [c for cs in reg.contracts.values() for c in cs if prop in c.props], [l for l in reg.lemmas.values() if prop in l.props]


def gen(job):
    kind, name, idx = job
    from pyvc import verify as V
    if kind == 'lemma':
        return V.verify_lemma(G['repo'], G['reg'], G['reg'].lemmas[name])
    if kind == 'law':
        return V.verify_client(G['repo'], G['reg'], G['reg'].clients[name])
    return V.verify(G['repo'], G['reg'], G['reg'].contracts[name][idx])


G = {}


def deductive(prop, scale, deadline=None, retry=True):
    import contracts
    from pyvc.repo import Repo
    from pyvc import solve
    reg = contracts.load()
    repo = Repo(REPO)
    G.update(reg=reg, repo=repo)
    todo = []
    for q, cs in reg.contracts.items():
        for i, c in enumerate(cs):
            if prop in c.props and not c.trusted:
                todo.append(('fn', q, i))
    for n, l in reg.lemmas.items():
        if prop in l.props:
            todo.append(('lemma', n, 0))
    for n, l in reg.clients.items():
        if prop in l.props:
            todo.append(('law', n, 0))
    done, units = set(), []
    trusted = set()
    while todo:
        job = todo.pop()
        if job in done:
            continue
        done.add(job)
        u = gen(job)
        u.job = job
        units.append(u)
        for l in u.lemmas:
            todo.append(('lemma', l, 0))
        for callee in u.callees:
            q, _, var = callee.partition('#')
            for i, c in enumerate(reg.contracts.get(q, [])):
                if c.name == callee or not var and c.qual == q:
                    if c.trusted:
                        trusted.add(c.name)
                    else:
                        todo.append(('fn', q, i))
    if prop in reg.owner:
        from pyvc import owner, verify
        u = verify.Unit('ownership conditions of memoized values', 'owner', [prop])
        u.owner = owner.conditions(repo)[0]
        u.job = ('owner', prop, 0)
        units.append(u)
    res = solve.discharge(units, scale=scale, deadline=deadline)
    bad = [k for k, v in res.items() if v[0] == 'unknown']
    if bad and retry and len(bad) <= 40:
        # slow rather than false: a second, longer attempt
        keep = {}
        for u in units:
            obs = [o for o in u.obs if (u.name, o.name) in set(bad)]
            if obs:
                keep[u.name] = (u, u.obs)
                u.obs = obs
        res.update(solve.discharge([u for u, _ in keep.values()], scale=scale * 3, deadline=deadline))
        for u, obs in keep.values():
            u.obs = obs
    return reg, units, res, trusted


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'other')
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    outf = os.path.join(HERE, 'evidence', '%s.bounded.json' % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed))

    def bounded(tier, timeout):
        if os.path.exists(outf):
            os.remove(outf)
        try:
            subprocess.run([PY, os.path.join(HERE, 'oracles', 'run.py'), prop, tier, str(seed), outf], env=env, timeout=timeout)
            return json.load(open(outf))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            return {'groups': [], 'failed': repr(e)}

    only = os.environ.get('VERIF_ONLY', '')
    b = bounded(tier, 400 if tier == 'quick' else 3000) if only != 'proof' else {'groups': []}
    tb = time.time() - t0
    reg, units, res, trusted = deductive(prop, 1.0 if tier == 'quick' else 3.0, t0 + 480 if tier == 'quick' else None,
                                         not any(g.get('witness') for g in b['groups'])) if only != 'bounded' else (None, [], {}, set())
    failures = []
    for u in units:
        if u.error:
            failures.append((u, None, u.error))
        for o in u.obs:
            st = res[(u.name, o.name)]
            if st[0] not in ('proved', 'ok'):
                failures.append((u, o, '%s by %s after %.1fs' % st))
        for name, ok, why in u.owner:
            if not ok:
                failures.append((u, None, 'condition %s: %s' % (name, why)))
        if not u.error and u.kind != 'owner' and not [o for o in u.obs if o.kind != 'cover']:
            failures.append((u, None, 'no obligation was generated'))
    wit = [g for g in b['groups'] if g.get('witness')]
    crashed = [g for g in b['groups'] if g.get('crash')]
    if failures and not wit and not b.get('import_error') and tier == 'quick' and only == '':
        left = 820 - (time.time() - t0)
        if left > 60:
            b2 = bounded('thorough', min(left, 240))
            wit = [g for g in b2['groups'] if g.get('witness') and not g.get('slow')]
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))) if k['property'] == prop]
    for k in known:
        if k.get('kind') == 'known':
            hit = [w for w in wit if w['witness'][1] == k['expr']]
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            wit = [w for w in wit if w not in hit]
    lines = []
    if b.get('import_error'):
        p = replay_import(prop, b['import_error'])
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    for i, g in enumerate(wit):
        p = replay_witness(prop, i, g, failures)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    if not lines and failures:
        p = replay_failed(prop, failures)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    write_evidence(prop, tier, seed, level, reg, units, res, trusted, b, failures, lines, t0, tb, known)
    for u, o, why in failures:
        print('FAILED obligation %s :: %s (%s)' % (u.name, o.name if o else '-', why))
    for l in lines:
        print(l)
    nob = sum(1 for u in units for o in u.obs if o.kind != 'cover')
    print('%s: %d contracts/lemmas, %d obligations, %d failed; %d bounded evaluations in %d groups; %.1fs' % (
        prop, len(units), nob, len(failures), sum(g['n'] for g in b['groups']), len(b['groups']), time.time() - t0))
    if lines:
        sys.exit(1)
    if crashed or b.get('failed') and only != 'proof' or (nob == 0 and only == ''):
        print('check error:', crashed, b.get('failed'), 'obligations', nob)
        sys.exit(3)
    sys.exit(0)


REPLAY = '''"""Replay of a failing input of property %(prop)s against the real code.
Found by %(group)s%(obs)s.  Run: python3-vt %(path)s   (exit 1: the failure is reproduced)"""
import os, sys, signal
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(1, %(here)r)
from oracles import base
sys.setrecursionlimit(3000)
ns = base.namespace()
setup = %(setup)r
expr = %(expr)r
want = %(want)r
signal.alarm(120)
try:
    exec(setup, ns)
    got = eval(expr, ns)
    shown = repr(got)
except BaseException as e:
    got, shown = e, repr(e)
print('expression:', setup, expr)
print('expected:  ', want)
print('got:       ', shown[:4000])
print('recorded:  ', %(got)r)
lit = %(lit)r
if lit is not None:
    sys.exit(0 if not isinstance(got, BaseException) and got == eval(lit) else 1)
sys.exit(1)
'''


def replay_witness(prop, i, g, failures):
    p = os.path.join(HERE, 'evidence', 'replays', '%s-%d.py' % (prop, i))
    setup, expr, want, got, lit = g['witness']
    obs = ''
    if failures:
        obs = '; failed obligations: ' + '; '.join('%s :: %s' % (u.name, o.name if o else why[:100]) for u, o, why in failures[:6]).replace('"""', "'''")
    open(p, 'w').write(REPLAY % dict(prop=prop, group=g['group'], obs=obs, path=p, here=HERE, setup=setup or '', expr=expr, want=want, got=got, lit=lit))
    return p


def replay_import(prop, text):
    p = os.path.join(HERE, 'evidence', 'replays', '%s-import.txt' % prop)
    open(p, 'w').write('importing the modules of the tree under test fails:\n' + text)
    return p


def replay_failed(prop, failures):
    p = os.path.join(HERE, 'evidence', 'replays', '%s-obligations.txt' % prop)
    from pyvc import solve
    with open(p, 'w') as f:
        f.write('Obligations of property %s that the verifier does not accept on the current tree\n' % prop)
        for u, o, why in failures[:20]:
            f.write('\n== %s :: %s\n   %s\n' % (u.name, o.name if o else '(whole function)', why))
            if o is not None:
                try:
                    f.write('   goal: %s\n' % str(o.goal)[:3000])
                    for h in o.hyps[:60]:
                        f.write('   hyp:  %s\n' % str(h)[:600])
                except Exception:
                    pass
            if u.src:
                f.write('   source:\n%s\n' % u.src[:4000])
    return p


def write_evidence(prop, tier, seed, level, reg, units, res, trusted, b, failures, lines, t0, tb, known):
    from collections import Counter
    obs = [(u, o) for u in units for o in u.obs if o.kind != 'cover']
    ok = [(u, o) for u, o in obs if res[(u.name, o.name)][0] == 'proved']
    secs = sum(v[2] for v in res.values())
    inl = sorted({x for u in units for x in u.inlined})
    cov = {
        'obligations': len(obs), 'discharged': len(ok),
        'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
        'trusted_base': ['pyvc: the VC generator in /verif/pyvc (semantics of the Python subset, ghost theory of sequences, sets, maps and finite sums)',
                         'z3 5.3.2 (python binding) and cvc5 1.1.2', 'CPython matches the assumed meaning of int, tuple, list, dict, set, sorted, sum, min, max, range, enumerate'] +
                        ['assumed contract (not verified): %s' % t for t in sorted(trusted)],
        'functions_under_contract': sorted(u.name for u in units if u.kind == 'function'),
        'lemmas': sorted(u.name for u in units if u.kind == 'lemma'),
        'functions_inlined_into_callers': inl,
        'backends': dict(Counter(res[(u.name, o.name)][1] for u, o in ok)),
        'solver_seconds': round(secs, 1),
        'vacuity_checks': sum(1 for u in units for o in u.obs if o.kind == 'cover'),
        'vacuity_checks_passed': sum(1 for u in units for o in u.obs if o.kind == 'cover' and res[(u.name, o.name)][0] == 'ok'),
        'ownership_conditions': sum(len(u.owner) for u in units),
        'ownership_conditions_holding': sum(1 for u in units for _, ok, _ in u.owner if ok),
        'ownership_note': 'decided by a flow analysis of the AST of every module (pyvc/owner.py), not by a solver; not counted among the obligations',
        'bounded_evaluations': sum(g['n'] for g in b['groups']),
        'bounded_note': 'bounded stand-in and witness search on the real code, never counted as proved',
        'bounded_groups': {g['group']: g['n'] for g in b['groups']},
        'samples': [s for g in b['groups'] for s in g['samples']][:12],
        'explanation': 'Obligations of the contracts on the functions listed are generated from the current source and discharged for all inputs; '
                       'the functions in the bounded groups beyond those are only evaluated on the enumerated inputs.',
        'failed_obligations': ['%s :: %s' % (u.name, o.name if o else why) for u, o, why in failures][:40],
        'known_findings': [k['what'] for k in known],
        'sources_sha': {u.name: u.sha for u in units if u.sha},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted({a for u in units for a in u.assumptions}) + ['Python integers are mathematical integers (they are)', 'no monkey patching of the modules at run time; single thread'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(lines)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w'), indent=1)


if __name__ == '__main__':
    main()
