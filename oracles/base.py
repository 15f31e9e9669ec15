"""Bounded stand-in / witness search: evaluates expressions against the real code in the
tree under test and compares them with independently computed answers.

A group is a function g(t) registered for a property; it calls t.eq(expr, want) where expr is
Python source evaluated in a namespace holding the real modules.  The first mismatch ends the
group and is a witness: expr is a failing input, and the replay file re-evaluates it."""
import importlib
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

GROUPS = {}
MODULES = ['cached', 'partitions', 'polynomials', 'vectors', 'tableaux', 'words', 'permutations', 'symmetric', 'insertion',
           'operators', 'dualops', 'boxes', 'utils', 'vst', 'crystals']


def group(*props, limit=60, quick=True, tags=()):
    def deco(f):
        f.props, f.limit, f.quick, f.tags = props, limit, quick, tags
        for p in props:
            GROUPS.setdefault(p, []).append(f)
        return f
    return deco


class Found(Exception):
    pass


class Slow(BaseException):
    pass


def namespace():
    ns = {}
    for m in MODULES:
        mod = importlib.import_module(m)
        ns[m] = mod
    for m in MODULES:
        for k, v in vars(ns[m]).items():
            if not k.startswith('__') and k not in ns:
                ns[k] = v
    from . import helpers
    ns['H'] = helpers
    return ns


class T:
    def __init__(self, ns, tier, seed):
        self.ns, self.tier, self.seed = ns, tier, seed
        self.rng = random.Random(seed)
        self.n, self.cur, self.samples, self.seen = 0, None, [], 0
        self.code = {}
        self.setup = ''

    @property
    def deep(self):
        return self.tier == 'thorough'

    def ev(self, expr, **kw):
        self.cur = expr
        if kw:
            ns = dict(self.ns)
            ns.update(kw)
            return eval(expr, ns)
        return eval(expr, self.ns)

    def note(self, expr):
        self.n += 1
        if self.n in (1, 7, 50):
            self.samples.append(expr[:200])

    def fail(self, expr, want, got):
        raise Found((self.setup, expr, repr(want)[:4000], repr(got)[:4000], want_literal(want)))

    def eq(self, expr, want):
        self.note(expr)
        try:
            got = self.ev(expr)
        except Slow:
            raise
        except Found:
            raise
        except RecursionError as e:
            self.fail(expr, want, e)
        except Exception as e:
            self.fail(expr, want, '%s: %s at %s' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-2:][0].strip()))
        try:
            same = got == want and samekind(got, want)
        except Exception as e:
            self.fail(expr, want, '%r (comparison raised %r)' % (type(got), e))
        if not same:
            self.fail(expr, want, got)
        return got

    def true(self, expr):
        return self.eq('bool(%s)' % expr, True)

    def raises(self, expr):
        self.note(expr)
        try:
            got = self.ev(expr)
        except Slow:
            raise
        except Exception:
            return
        self.fail(expr, 'an exception', got)

    def do(self, code):
        """Run a statement sequence (kept as the prefix of the replay)."""
        self.setup = code
        self.cur = code
        try:
            exec(code, self.ns)
        except Slow:
            raise
        except Exception as e:
            raise Found((code, 'None', 'normal completion', repr(e), None))


def samekind(a, b):
    """1 == True and (1,) == (True,) must not pass as the same answer for bools."""
    if isinstance(a, bool) != isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and not isinstance(b, bool)
    return True


def want_literal(w):
    try:
        r = repr(w)
        if eval(r, {}) == w and len(r) < 20000:
            return r
    except Exception:
        pass
    return None


def run_group(f, ns, tier, seed, limit):
    t = T(ns, tier, seed)

    def onalarm(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sys.setrecursionlimit(3000)
    t0 = time.time()
    out = {'group': f.__module__.split('.')[-1] + '.' + f.__name__, 'witness': None}
    try:
        f(t)
    except Found as e:
        out['witness'] = e.args[0]
    except Slow:
        out['witness'] = (t.setup, t.cur or 'None', 'an answer (the same group takes a few seconds on the unchanged tree)', 'no answer within %ds' % limit, None)
        out['slow'] = True
    except Exception as e:
        # the oracle's own code tripped over a value the real code produced
        out['witness'] = (t.setup, t.cur or 'None', 'an answer of the documented type', '%s' % traceback.format_exc()[-1500:], None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out.update(n=t.n, samples=t.samples, secs=round(time.time() - t0, 2))
    return out


def run_child(f, ns, tier, seed, limit, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        # output of the code under test is not ours
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        r = run_group(f, ns, tier, seed, limit)
        data = pickle.dumps(r)
    except BaseException as e:
        data = pickle.dumps({'group': f.__name__, 'witness': None, 'crash': repr(e), 'n': 0, 'samples': [], 'secs': 0})
    with os.fdopen(wfd, 'wb') as w:
        w.write(data)
    os._exit(0)


def run_all(groups, ns, tier, seed, procs=8, scale=1.0):
    """Each group in its own forked process (so caches of one cannot serve another)."""
    pend, live, out = list(groups), {}, []
    while pend or live:
        while pend and len(live) < procs:
            f = pend.pop(0)
            r, w = os.pipe()
            limit = f.limit * (6 if tier == 'thorough' else 1) * scale
            pid = os.fork()
            if pid == 0:
                os.close(r)
                run_child(f, ns, tier, seed, limit, w)
            os.close(w)
            live[pid] = (f, r, time.time(), limit)
        for pid, (f, r, t0, limit) in list(live.items()):
            done, _ = os.waitpid(pid, os.WNOHANG) if not select_ready(r) else (pid, 0)
            if select_ready(r) or done:
                with os.fdopen(r, 'rb') as h:
                    data = h.read()
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                out.append(pickle.loads(data) if data else {'group': f.__name__, 'witness': None, 'crash': 'died', 'n': 0, 'samples': [], 'secs': time.time() - t0})
                del live[pid]
            elif time.time() - t0 > limit + 30:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out.append({'group': f.__module__.split('.')[-1] + '.' + f.__name__, 'n': 0, 'samples': [], 'secs': time.time() - t0,
                            'witness': ('', 'None', 'an answer', 'group %s gave none within %ds' % (f.__name__, limit + 30), None), 'slow': True})
                del live[pid]
        time.sleep(0.01)
    return out


def select_ready(r):
    import select
    return bool(select.select([r], [], [], 0)[0])
