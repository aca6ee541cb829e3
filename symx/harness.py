"""Check harness: one harness function runs in two modes.

symbolic  - against the source of /repo executed symbolically (symx.env); every
            branch decided by z3, obligations discharged by z3;
concrete  - against the real, unpatched PyEMD of /repo with the values of a
            solver model: confirms counterexamples and validates the encoding.
"""
import json
import math
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings
import zlib
from fractions import Fraction as F

import numpy as np
import z3

from . import arr as A
from . import core
from .core import (
    B, CUR, BudgetExceeded, Engine, FALSE, NEG, POS, Poly, R, Stats, TRUE, Unsupported, PathAbort, PathInfeasible, ZER,
    ZERO, bf, f_and, f_eval, f_not, f_or, f_sign, f_vars, f_z3, r_abs,
)

REPO = os.environ.get("VERIF_REPO", "/repo")


class CheckFail(Exception):
    def __init__(self, name, msg=""):
        super().__init__(name, msg)
        self.name, self.msg = name, msg


class AssumeFail(BaseException):
    pass


class PathTimeout(BaseException):
    pass


def _key_str(args):
    return repr(args)


# ----------------------------------------------------------------------------
# common API


class Ctx:
    symbolic = False
    TOL = F(1, 10**6)

    # -- logic
    def And(self, *a):
        r = True
        for x in a:
            r = self._and(r, x)
        return r

    def _and(self, a, b):
        if isinstance(a, B) or isinstance(b, B):
            return B.mk(f_and(bf(a), bf(b)))
        return bool(a) and bool(b)

    def Or(self, *a):
        if any(isinstance(x, B) for x in a):
            return B.mk(f_or(*[bf(x) for x in a]))
        return any(bool(x) for x in a)

    def Not(self, a):
        return B.mk(f_not(a.f)) if isinstance(a, B) else (not bool(a))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    # -- checks
    def prove(self, name, cond, msg=""):
        raise NotImplementedError

    def prove_close(self, name, a, b, tol=None, msg=""):
        a, b = self.flat(a), self.flat(b)
        self.prove(name, a[0] == b[0], "shape %s != %s %s" % (a[0], b[0], msg))
        tol = self.TOL if tol is None else F(tol)
        self.prove(name, self.And(*[self.near(x, y, tol) for x, y in zip(a[1], b[1])]), msg)

    def call(self, f, *a, allowed=(), **k):
        """f(*a, **k) -> ('ok', value) or ('exc', exception) for allowed exception types"""
        try:
            return "ok", f(*a, **k)
        except allowed as ex:
            return "exc", ex

    def arr(self, vals, dtype="float64"):
        raise NotImplementedError


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, engine, run):
        self.e = engine
        self.run = run
        from .env import Env

        self.env = Env()
        self.np = self.env.np
        self.obs = []

    def mod(self, name):
        if name in self.env.shims:
            return self.env.shims[name]
        return self.env.load(name)

    def real(self, name, lo, hi):
        return self.e.input(name, F(lo) if lo is not None else None, F(hi) if hi is not None else None)

    def int(self, name, lo, hi):
        return self.e.input(name, lo, hi, isint=True)

    def reals(self, name, n, lo, hi):
        return self.arr([self.real("%s%d" % (name, i), lo, hi) for i in range(n)])

    def ints(self, name, n, lo, hi, dtype="int64"):
        return self.arr([self.int("%s%d" % (name, i), lo, hi) for i in range(n)], dtype)

    def arr(self, vals, dtype="float64"):
        return A.wrap(A._stack_list(list(vals)) if not isinstance(vals, np.ndarray) else A.toobj(vals), np.dtype(dtype), False)

    def pick(self, options, label=""):
        options = list(options)
        return options[self.e.choose(len(options))]

    def memo(self, table, key, make):
        """table lookup by identical symbolic content; the outcome is recorded for the replay"""
        for i, (k, v) in enumerate(table):
            if len(k) == len(key) and all(self.same_term(a, b) for a, b in zip(k, key)):
                self.e.choices.append(i)
                return v
        self.e.choices.append(-1)
        v = make()
        table.append((key, v))
        return v

    def same_term(self, a, b):
        if not isinstance(a, R) and not isinstance(b, R):
            return a == b
        a, b = R.of(a), R.of(b)
        if a.sp or b.sp:
            return a.sp == b.sp
        d = a - b
        return d.is_const() and d.c == 0

    def truth(self, c):
        return bool(c)

    def assume(self, c):
        self.e.assume(bf(c))

    def near(self, a, b, tol):
        a, b = R.of(a), R.of(b)
        if a.sp or b.sp:
            return a.sp == b.sp
        d = a - b
        if d.is_const():
            return abs(d.c) <= tol
        t = R(F(tol))
        return self._and(d <= t, d >= -t)

    def flat(self, x):
        if isinstance(x, (R, B)):
            return (), [x]
        if isinstance(x, np.ndarray):
            return tuple(x.shape), list(A.toobj(x).reshape(-1))
        if isinstance(x, (list, tuple)):
            o = A._stack_list(list(x))
            return tuple(o.shape), list(o.reshape(-1))
        return (), [x]

    def isnan(self, x):
        x = R.of(x)
        return x.sp == "nan"

    def finite(self, x):
        x = R.of(x)
        return not x.sp

    def draws(self):
        """every raw random draw made so far (normal draws, uniform draws)"""
        ks = [k[1] for k in self.e.memo if isinstance(k, tuple) and k[0] == "rnd"]
        return [R.var(k) for k in ks if k.startswith("rnd_n_")], [R.var(k) for k in ks if k.startswith("rnd_u_")]

    def reseed_global(self, seed):
        self.np.random.seed(seed)

    def global_draw(self):
        return self.np.random.normal()

    def figs(self):
        """what has been plotted: per figure, per axis (title, y label, [(x, y)])"""
        return [[(a.title, a.ylabel, a.plots) for a in f.axes] for f in self.env.plt.figs]

    def prove(self, name, cond, msg=""):
        self.run.obligation(self, name, cond, msg)

    def cover(self, name):
        self.e.stats.reach[name] = self.e.stats.reach.get(name, 0) + 1

    def observe(self, name, val):
        self.obs.append((name, self.flat(val)))

    def abort(self, why):
        raise PathAbort(why)


class ConcCtx(Ctx):
    """concrete replay on the real code"""

    def __init__(self, vals, choices):
        self.vals = vals
        self.choices = list(choices)
        self.ci = 0
        self.np = np
        self.obs = []
        self.strict = True

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def _v(self, key, default):
        v = self.vals.get(key)
        if v is None:
            return default
        return v

    def real(self, name, lo, hi):
        lo2, hi2 = (lo if lo is not None else -1), (hi if hi is not None else 1)
        h = (zlib.crc32(name.encode()) % 1000) / 1000.0
        return float(self._v(name, float(lo2) + (float(hi2) - float(lo2)) * h))

    def int(self, name, lo, hi):
        return int(self._v("i!" + name, lo))

    def reals(self, name, n, lo, hi):
        return np.array([self.real("%s%d" % (name, i), lo, hi) for i in range(n)], dtype=float)

    def ints(self, name, n, lo, hi, dtype="int64"):
        return np.array([self.int("%s%d" % (name, i), lo, hi) for i in range(n)], dtype=dtype)

    def arr(self, vals, dtype="float64"):
        return np.array([float(v) if isinstance(v, F) else v for v in vals], dtype=dtype)

    def choose(self, n, what=""):
        if n <= 1:
            return 0
        v = self.choices[self.ci] if self.ci < len(self.choices) else 0
        self.ci += 1
        return min(v, n - 1)

    def pick(self, options, label=""):
        options = list(options)
        return options[self.choose(len(options))]

    def memo(self, table, key, make):
        i = self.choices[self.ci] if self.ci < len(self.choices) else -1
        self.ci += 1
        if 0 <= i < len(table):
            return table[i][1]
        v = make()
        table.append((key, v))
        return v

    def truth(self, c):
        return bool(c)

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFail()

    def near(self, a, b, tol):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        # slightly tighter than the solver's tolerance, with float slack relative to magnitude
        return abs(a - b) <= float(tol) * 0.75 + 1e-12 * max(abs(a), abs(b))

    def flat(self, x):
        x = np.asarray(x)
        return tuple(x.shape), list(x.reshape(-1))

    def isnan(self, x):
        return bool(np.isnan(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def draws(self):
        ks = list(self.__dict__.get("drawn", {}).items())
        return [v for k, v in ks if k.startswith("rnd_n_")], [v for k, v in ks if k.startswith("rnd_u_")]

    def reseed_global(self, seed):
        np.random.seed(seed)

    def global_draw(self):
        return np.random.normal()

    def figs(self):
        import matplotlib.pyplot as plt

        out = []
        for k in plt.get_fignums():
            out.append([(a.get_title(), a.get_ylabel(), [(list(l.get_xdata(orig=True)), list(l.get_ydata(orig=True))) for l in a.get_lines()]) for a in plt.figure(k).axes])
        return out

    def prove(self, name, cond, msg=""):
        if not bool(np.all(cond)):
            raise CheckFail(name, msg)

    def cover(self, name):
        pass

    def observe(self, name, val):
        self.obs.append((name, self.flat(val)))

    def abort(self, why):
        raise AssumeFail()


# ----------------------------------------------------------------------------
# concrete-side stand-ins for nondeterminism (random streams, process pools)

_cur_conc = None


def _rkey(seed):
    if isinstance(seed, (np.ndarray, list, tuple)):
        return "seq" + "_".join(str(int(x)) for x in np.asarray(seed).reshape(-1))
    return "s%d" % int(seed)


class ScriptRandomState:
    """random stream whose draws are the solver model's values (picklable)"""

    def __init__(self, seed=None):
        self.seed(seed)

    def seed(self, seed=None):
        if seed is None:
            _cur_conc.rng_count = getattr(_cur_conc, "rng_count", 0) + 1
            self.key = "os%d" % _cur_conc.rng_count
        else:
            self.key = _rkey(seed)
        self.pos = 0

    def get_state(self, legacy=True):
        return ("MT19937", self.key, self.pos)

    def set_state(self, st):
        self.key, self.pos = st[1], st[2]

    def _draw(self, kind, lo, hi):
        name = "rnd_%s_%s_%d" % (kind, self.key, self.pos)
        self.pos += 1
        v = _cur_conc.real(name, lo, hi)
        _cur_conc.__dict__.setdefault("drawn", {})[name] = v
        return v

    def _sized(self, size, one):
        if size is None:
            return one()
        o = np.empty(size, dtype=float)
        for i in np.ndindex(o.shape):
            o[i] = one()
        return o

    def normal(self, loc=0.0, scale=1.0, size=None):
        if scale < 0:
            raise ValueError("scale < 0")
        from .env import RND_BOUND

        return self._sized(size, lambda: loc + scale * self._draw("n", -RND_BOUND, RND_BOUND))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *d):
        return self.normal(size=d or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._sized(size, lambda: low + (high - low) * self._draw("u", 0, 1))

    def random_sample(self, size=None):
        return self.uniform(size=size)

    random = random_sample

    def rand(self, *d):
        return self.uniform(size=d or None)

    def randint(self, low, high=None, size=None, dtype=int):
        from .env import derive_int

        if high is None:
            low, high = 0, low

        def one():
            p = self.pos
            self.pos += 1
            return derive_int(self.key, p, low, high)

        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)], dtype=np.int64).reshape(size)

    integers = randint


class ScriptPool:
    """In-process process pool: real pickling per chunk (isolation), completion
    order of imap_unordered taken from the replayed schedule."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or os.cpu_count()
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False

    def _run(self, func, items, chunksize, star=False):
        if self.closed:
            raise ValueError("Pool not running")
        res = []
        for i in range(0, len(items), chunksize):
            f, chunk = pickle.loads(pickle.dumps((func, items[i : i + chunksize])))
            gs = _SCRIPT_GLOBAL.get_state() if _SCRIPT_GLOBAL is not None else None
            rs = [f(*a) if star else f(a) for a in chunk]
            if gs is not None:
                _SCRIPT_GLOBAL.set_state(gs)
            res.append(pickle.loads(pickle.dumps(rs)))
        return res

    def _cs(self, n, chunksize):
        if chunksize:
            return chunksize
        c, x = divmod(n, self.n * 4)
        return max(1, c + bool(x))

    def map(self, func, it, chunksize=None):
        it = list(it)
        return [x for c in self._run(func, it, self._cs(len(it), chunksize)) for x in c]

    def starmap(self, func, it, chunksize=None):
        it = list(it)
        return [x for c in self._run(func, it, self._cs(len(it), chunksize), star=True) for x in c]

    def imap(self, func, it, chunksize=1):
        return iter([x for c in self._run(func, list(it), chunksize) for x in c])

    def imap_unordered(self, func, it, chunksize=1):
        r = self._run(func, list(it), chunksize)
        left = list(range(len(r)))
        order = []
        while left:
            k = _cur_conc.choose(len(left)) if len(left) > 1 else 0
            order.append(left.pop(k))
        return iter([x for k in order for x in r[k]])

    def apply(self, func, args=(), kwds={}):
        return self._run(lambda _: None, [], 1) or pickle.loads(pickle.dumps(func))(*args, **kwds)

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


_SCRIPT_GLOBAL = None
_real_ready = False


def load_real(mods):
    """import the real package once (before forking workers), with the
    nondeterminism stand-ins installed in multiprocessing"""
    global _real_ready
    import multiprocessing
    import multiprocessing.pool

    if not _real_ready:
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        os.environ.setdefault("MPLBACKEND", "Agg")
        multiprocessing.Pool = ScriptPool
        multiprocessing.pool.Pool = ScriptPool
        _real_ready = True
    import importlib

    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:
            pass


def _patch_random():
    global _SCRIPT_GLOBAL
    np.random.RandomState = ScriptRandomState
    np.random.default_rng = lambda seed=None: seed if isinstance(seed, ScriptRandomState) else ScriptRandomState(seed)
    _SCRIPT_GLOBAL = ScriptRandomState()
    for n in ("normal", "uniform", "randn", "rand", "seed", "randint", "standard_normal", "random", "random_sample"):
        setattr(np.random, n, getattr(_SCRIPT_GLOBAL, n))
    np.random.mtrand._rand = _SCRIPT_GLOBAL


def run_concrete(task, vals, choices, timeout=20, real_random=False):
    """Run the harness on the real code in a forked child.
    -> dict(outcome='ok'|'fail'|'crash'|'assume'|'hang'|'internal', name, msg, obs)"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            out = _conc_child(task, vals, choices)
            data = pickle.dumps(out)
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    end = time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            hang = True
            break
        c = os.read(rfd, 1 << 16)
        if not c:
            break
        data += c
    os.close(rfd)
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hang:
        return {"outcome": "hang", "name": "termination", "msg": "no result within %ds" % timeout, "obs": []}
    try:
        return pickle.loads(data)
    except Exception:
        return {"outcome": "internal", "name": "", "msg": "child died", "obs": []}


def _conc_child(task, vals, choices):
    global _cur_conc
    CUR.e = None
    ctx = ConcCtx(vals, choices)
    _cur_conc = ctx
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    _patch_random()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    load_real(task.mods)
    try:
        task.fn(ctx, **task.params)
        out = ("ok", "", "")
    except CheckFail as ex:
        out = ("fail", ex.name, ex.msg)
    except AssumeFail:
        out = ("assume", "", "")
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = any(os.path.abspath(f.filename).startswith(os.path.join(REPO, "PyEMD")) for f in tb)
        out = ("crash" if inrepo else "internal", type(ex).__name__, "%s: %s at %s:%s" % (type(ex).__name__, ex, tb[-1].filename, tb[-1].lineno))
    obs = []
    for n, (sh, v) in ctx.obs:
        obs.append((n, sh, [complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x) for x in v]))
    return {"outcome": out[0], "name": out[1], "msg": str(out[2])[:500], "obs": obs}


# ----------------------------------------------------------------------------
# one symbolic path


class Task:
    def __init__(self, name, fn, params=None, mods=(), weight=1.0, bounds=None, allow_crash=False, qtimeout=4000, path_timeout=60,
                 conc_timeout=20, schedule="any", budget=None):
        self.name, self.fn, self.params, self.mods = name, fn, dict(params or {}), list(mods)
        self.weight = weight
        self.bounds = bounds or ""
        self.qtimeout = qtimeout
        self.path_timeout = path_timeout
        self.conc_timeout = conc_timeout
        self.schedule = schedule
        self.budget = budget


def _alarm(sig, frm):
    raise PathTimeout()


class PathRun:
    """executes a task along one decision prefix"""

    def __init__(self, task, prefix, stats, shared):
        self.task = task
        self.prefix = prefix
        self.stats = stats
        self.shared = shared  # per-worker dict: budgets, seen obligations, validation counters
        self.violation = None
        self.notes = []

    def model_variants(self, e, extra):
        """rational models of pc & extra, best margins first"""
        outs = []
        for eps in (F(1, 16), F(1, 1000), F(1, 10**6), None):
            s = core.NL_TACTIC().solver() if e.nonlin or any(core.f_nonlin(f) for f in extra) else z3.Solver()
            s.set("timeout", 3000)
            for f in e.pc:
                s.add(f_z3(f, None if eps is None else z3.Q(eps.numerator, eps.denominator)))
            for f in extra:
                s.add(f_z3(f, None if eps is None else z3.Q(eps.numerator, eps.denominator)))
            t0 = time.time()
            r = s.check()
            e.stats.queries += 1
            e.stats.solver_s += time.time() - t0
            if r == z3.sat:
                m = s.model()
                vals = {}
                for v in e.inputs:
                    zv = z3.Int(v) if v.startswith("i!") else z3.Real(v)
                    q = m.eval(zv, model_completion=True)
                    n = core._num(q)
                    if n is None and z3.is_algebraic_value(q):
                        q = q.approx(20)
                        n = F(q.numerator_as_long(), q.denominator_as_long())
                    if n is None:
                        vals = None
                        break
                    vals[v] = n
                if vals is not None:
                    outs.append((eps, vals))
                    if len(outs) >= 3:
                        break
        return outs

    def fragile(self, e):
        """the path needs two computed quantities to be exactly equal: a float run of
        its witness may legitimately take the other side of that branch"""
        for p, m in e.known.items():
            if m != ZER:
                continue
            t = p.t
            if p.degree() <= 1 and all(v in e.inputs for v in p.vars()):
                lin = [k for mono, k in t.items() if mono]
                if len(lin) == 1 or (len(lin) == 2 and lin[0] == -lin[1] and () not in t):
                    if len(lin) == 2 or () not in t or float(t[()] / lin[0]) == t[()] / lin[0]:
                        continue
            return True
        return False

    def persists(self, fv, choices):
        """a counterexample that rests on a stub and sits exactly on a branch boundary may fail in floating
        point by rounding alone: it counts only if it also fails a little off the boundary"""
        for k in range(4):
            w = {v: x if v.startswith("i!") else x + (1 + abs(x)) * 2.0**-22 * (((7 * i + 5 * k + 3 * i * k) % 11 - 5) / 5.0) for i, (v, x) in enumerate(sorted(fv.items()))}
            if run_concrete(self.task, w, choices, self.task.conc_timeout)["outcome"] in ("fail", "crash", "hang"):
                return True
        return False

    def try_replay(self, e, extra, want, margin=False, sure=False):
        """-> confirmed violation dict or None"""
        seen = []
        self.robust_miss = False
        for eps, vals in self.model_variants(e, extra):
            fv = {k: (int(v) if k.startswith("i!") else float(v)) for k, v in vals.items()}
            if fv in seen or (margin and eps is None):
                continue
            seen.append(fv)
            r = run_concrete(self.task, fv, e.choices, self.task.conc_timeout)
            if r["outcome"] in ("fail", "crash", "hang"):
                if (sure or e.abstract and (eps is None or self.fragile(e))) and not self.persists(fv, e.choices):
                    continue
                return {
                    "task": self.task.name, "vals": fv, "choices": list(e.choices), "outcome": r["outcome"],
                    "obligation": r["name"], "msg": r["msg"], "predicted": want,
                }
            if r["outcome"] == "ok" and eps is not None and eps >= F(1, 1000):
                self.robust_miss = (fv, list(e.choices))
        return None

    def obligation(self, ctx, name, cond, msg):
        e = ctx.e
        st = self.stats
        st.obligations += 1
        key = self.task.name + "/" + name
        st.reach["prove:" + name] = st.reach.get("prove:" + name, 0) + 1
        f = bf(cond)
        if e.simp(f) is True:
            st.discharged_trivially += 1
            return
        r = e.check(f_z3(f_not(f)), timeout=max(self.task.qtimeout, 6000), ef=f_not(f))
        if r == z3.unsat:
            st.discharged_solver += 1
            e.learn(f)
            return
        if r == z3.unknown:
            st.obl_unknown += 1
            # undecided: the solver's model of the path may still be a counterexample
            n = self.shared.setdefault("undecided", {})
            if n.get(key, 0) < 2:
                n[key] = n.get(key, 0) + 1
                v = self.try_replay(e, [], name, sure=True)
                if v is not None:
                    self.violation = v
                    raise PathAbort("violation")
            return
        # counterexample
        n = self.shared.setdefault("cex", {})
        if n.get(key, 0) >= 4:
            raise PathAbort("further unreplayed counterexamples of " + name)
        v = self.try_replay(e, [f_not(f)], name)
        if v is not None:
            self.violation = v
            raise PathAbort("violation")
        n[key] = n.get(key, 0) + 1
        tag = "ENCODING " if self.robust_miss and not e.abstract else ""
        self.notes.append(tag + "unreplayed counterexample: %s %s%s %s" % (key, msg, " (stub dependent)" if e.abstract else "", self.robust_miss))
        raise PathAbort("unreplayed counterexample " + name)

    def run(self):
        task = self.task
        e = Engine(self.prefix, self.stats, task.qtimeout)
        e.schedule = task.schedule
        e.deadline = self.shared.get("deadline")
        CUR.e = e
        ctx = SymCtx(e, self)
        self.stats.paths += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, min(task.path_timeout, (e.deadline or 1e18) - time.time() + 3)))
        prof = None
        if self.shared.get("profile") is not None and task.name not in self.shared["profiled"]:
            self.shared["profiled"].add(task.name)
            fs = self.shared["profile"]
            root = os.path.join(REPO, "PyEMD") + os.sep

            def prof(frame, ev, arg):
                if ev == "call":
                    co = frame.f_code
                    if co.co_filename.startswith(root):
                        fs.add("%s:%s" % (co.co_filename[len(REPO) + 1 :], co.co_qualname))

            sys.setprofile(prof)
        fallback = None
        try:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    task.fn(ctx, **task.params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if prof:
                    sys.setprofile(None)
            self.finish(ctx, e)
        except PathInfeasible:
            self.stats.infeasible += 1
        except PathAbort as ex:
            self.stats.aborted[ex.why] = self.stats.aborted.get(ex.why, 0) + 1
        except BudgetExceeded:
            self.shared["over"] = True
            e.new.append(list(e.prefix))  # put back
            self.stats.paths -= 1
            e.new = [list(e.prefix)]
        except Unsupported as ex:
            fallback = "unsupported: " + str(ex)
        except PathTimeout:
            fallback = "path timeout"
        except z3.Z3Exception as ex:
            fallback = "z3: " + str(ex)[:80]
        except RecursionError:
            fallback = "recursion"
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(os.path.join(REPO, "PyEMD"))]
            where = inrepo[-1] if inrepo else tb[-1]
            fallback = "exception %s: %s at %s:%s" % (type(ex).__name__, str(ex)[:100], os.path.basename(where.filename), where.lineno)
            if os.environ.get("SYMX_TB"):
                traceback.print_exc()
        finally:
            CUR.e = None
        if fallback and self.violation is None:
            k = self.shared.setdefault("fb", {})
            k[fallback] = k.get(fallback, 0) + 1
            self.stats.unsupported[fallback] = self.stats.unsupported.get(fallback, 0) + 1
            if k[fallback] <= 6 and (fallback.startswith("exception") or not self.fragile(e)):
                CUR.e = e
                e.deadline = None
                try:
                    v = self.try_replay(e, [], fallback, margin=not fallback.startswith("exception"))
                except (Exception, PathInfeasible, Unsupported, BudgetExceeded):
                    v = None
                finally:
                    CUR.e = None
                if v is not None:
                    self.violation = v
        return e

    def finish(self, ctx, e):
        """end of a completed path: feasibility witness + sampled validation"""
        sh = self.shared
        nval = sh.setdefault("nval", {})
        cnt = nval.get(self.task.name, 0)
        # validate the first two paths of the task in this worker, then sparsely
        seen = sh.setdefault("npaths", {})
        seen[self.task.name] = seen.get(self.task.name, 0) + 1
        n = seen[self.task.name]
        want = cnt < sh.get("maxval", 3) and (n & (n - 1)) == 0
        if not want:
            return
        nval[self.task.name] = cnt + 1
        s = z3.Solver()
        s.set("timeout", 3000)
        got = None
        for eps in (F(1, 16), F(1, 1000), None):
            s = core.NL_TACTIC().solver() if e.nonlin else z3.Solver()
            s.set("timeout", 3000)
            for f in e.pc:
                s.add(f_z3(f, None if eps is None else z3.Q(eps.numerator, eps.denominator)))
            if s.check() == z3.sat:
                e.last_model = s.model()
                got = e.grab_model()
                if got is not None:
                    break
        if got is None:
            return
        fv = {k: (int(v) if k.startswith("i!") else float(v)) for k, v in got.items() if k in e.inputs}
        r = run_concrete(self.task, fv, e.choices, self.task.conc_timeout)
        st = self.stats
        if r["outcome"] in ("fail", "crash", "hang") and eps is not None and not self.fragile(e):
            self.violation = {
                "task": self.task.name, "vals": fv, "choices": list(e.choices), "outcome": r["outcome"],
                "obligation": r["name"], "msg": r["msg"], "predicted": "validation of a path witness",
            }
            return
        if r["outcome"] != "ok":
            st.reach["validation:" + r["outcome"]] = st.reach.get("validation:" + r["outcome"], 0) + 1
            if r["outcome"] == "internal":
                self.notes.append("validation internal error %s: %s" % (self.task.name, r["msg"]))
            return
        # compare observations
        bad = None
        co = r["obs"]
        if not e.abstract and len(co) == len(ctx.obs):
            for (n1, (s1, v1)), (n2, s2, v2) in zip(ctx.obs, co):
                if n1 != n2 or tuple(s1) != tuple(s2):
                    bad = "%s %s vs %s %s" % (n1, s1, n2, s2)
                    break
                for x, y in zip(v1, v2):
                    try:
                        xv = num_eval(x, got)
                    except KeyError:
                        continue
                    if math.isnan(xv) and math.isnan(float(y)):
                        continue
                    if not abs(xv - y) <= 1e-6 * max(1.0, abs(xv)):
                        bad = "%s: %r vs %r" % (n1, xv, y)
                        break
                if bad:
                    break
        elif len(co) != len(ctx.obs):
            bad = "number of observations"
        if bad and self.fragile(e):
            st.reach["validation:exact tie lost to rounding"] = st.reach.get("validation:exact tie lost to rounding", 0) + 1
            return
        key = "validated" if bad is None else "validation_mismatch"
        st.reach[key] = st.reach.get(key, 0) + 1
        if bad:
            self.notes.append("validation mismatch in %s: %s with %s" % (self.task.name, bad, fv))


def num_eval(x, model):
    if isinstance(x, B):
        return float(f_eval(x.f, model))
    x = R.of(x) if not isinstance(x, R) else x
    if x.sp:
        return float(x.value())
    v = x.c
    for p in x.nf:
        v = v * p.ev(model)
    for p in x.df:
        v = v / p.ev(model)
    return float(v)
