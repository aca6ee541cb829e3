"""Symbolic core: exact polynomials / rational functions over solver variables,
boolean formulas, and a path-exploring engine that decides every branch with z3.

Numbers are exact rationals and reals (real-arithmetic semantics of the float
code; IEEE rounding is outside the encoding, inf/nan produced by division by
zero are modelled).
"""
import sys

sys.set_int_max_str_digits(0)
import itertools
import math
import time
from fractions import Fraction as F

import numpy as np
import z3

z3.set_param("auto_config", True)


class Unsupported(BaseException):
    """The engine cannot encode what the code under analysis does here."""


class PathInfeasible(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class PathAbort(BaseException):
    """Path cut on purpose by a harness bound (counted, reported)."""

    def __init__(self, why):
        self.why = why


# ----------------------------------------------------------------------------
# polynomials


class Poly:
    __slots__ = ("t", "_k", "_h", "_z")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._z = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
            self._h = hash(self._k)
        return self._k

    def __hash__(self):
        self.key
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.key == o.key)

    def __lt__(self, o):
        return self.key < o.key

    def const(self):
        """value if constant else None"""
        t = self.t
        if not t:
            return F(0)
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def add(self, o, k=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c * k
            else:
                v = v + c * k
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported("polynomial blow-up")
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = t.get(m)
                v = c1 * c2 if v is None else v + c1 * c2
                t[m] = v
        return Poly({m: c for m, c in t.items() if c})

    def normal(self):
        """(coef, canonical poly with leading coefficient 1)"""
        k = self.key
        c = k[-1][1]
        if c == 1:
            return F(1), self
        return c, Poly({m: v / c for m, v in self.t.items()})

    def ev(self, model):
        s = F(0)
        for m, c in self.t.items():
            for v in m:
                c = c * model[v]
            s += c
        return s

    def z(self):
        if self._z is None:
            z = _zcache.get(self)
            if z is None:
                if len(_zcache) > 40000:
                    _zcache.clear()
                z = _zcache[self] = self._mkz()
            self._z = z
        return self._z

    def _mkz(self):
        ctx = z3.main_ctx()
        c = ctx.ref()
        terms = []
        keep = []
        for m, k in self.key:
            if k == 1 and m:
                if len(m) == 1:
                    terms.append(zvar(m[0]))
                    continue
                parts = [zvar(v) for v in m]
            else:
                q = _zq(k)
                if not m:
                    terms.append(q)
                    continue
                parts = [q] + [zvar(v) for v in m]
            arr = (z3.Ast * len(parts))(*[p.as_ast() for p in parts])
            terms.append(z3.ArithRef(z3.Z3_mk_mul(c, len(parts), arr), ctx))
        if not terms:
            return _zq(F(0))
        if len(terms) == 1:
            return terms[0]
        arr = (z3.Ast * len(terms))(*[p.as_ast() for p in terms])
        return z3.ArithRef(z3.Z3_mk_add(c, len(terms), arr), ctx)


_zcache = {}
_zqc = {}


def _zq(k):
    r = _zqc.get(k)
    if r is None:
        ctx = z3.main_ctx()
        s = str(k.numerator) if k.denominator == 1 else "%d/%d" % (k.numerator, k.denominator)
        if len(_zqc) > 40000:
            _zqc.clear()
        r = _zqc[k] = z3.ArithRef(z3.Z3_mk_numeral(ctx.ref(), s, z3.RealSort().ast), ctx)
    return r


ZERO = Poly({})
ONE = Poly({(): F(1)})

_zv = {}


def zvar(name):
    v = _zv.get(name)
    if v is None:
        if name.startswith("i!"):
            v = z3.ToReal(z3.Int(name))
        else:
            v = z3.Real(name)
        _zv[name] = v
    return v


# ----------------------------------------------------------------------------
# formulas, in negation normal form over sign atoms

TRUE = ("T",)
FALSE = ("F",)
NEG, ZER, POS = 1, 2, 4


def f_sign(poly, mask):
    mask &= 7
    if mask == 7:
        return TRUE
    if mask == 0:
        return FALSE
    c = poly.const()
    if c is not None:
        s = NEG if c < 0 else (POS if c > 0 else ZER)
        return TRUE if s & mask else FALSE
    k, p = poly.normal()
    if k < 0:
        mask = (mask & ZER) | ((mask & NEG) << 2) | ((mask & POS) >> 2)
    return ("s", p, mask)


def f_not(f):
    t = f[0]
    if t == "T":
        return FALSE
    if t == "F":
        return TRUE
    if t == "s":
        return ("s", f[1], 7 ^ f[2])
    if t == "and":
        return f_or(*[f_not(x) for x in f[1]])
    return f_and(*[f_not(x) for x in f[1]])


def f_and(*fs):
    out = []
    seen = {}
    for f in fs:
        t = f[0]
        if t == "F":
            return FALSE
        if t == "T":
            continue
        subs = f[1] if t == "and" else (f,)
        for g in subs:
            if g[0] == "s":
                i = seen.get(g[1])
                if i is not None:
                    m = out[i][2] & g[2]
                    if m == 0:
                        return FALSE
                    out[i] = ("s", g[1], m)
                    continue
                seen[g[1]] = len(out)
            out.append(g)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    seen = {}
    for f in fs:
        t = f[0]
        if t == "T":
            return TRUE
        if t == "F":
            continue
        subs = f[1] if t == "or" else (f,)
        for g in subs:
            if g[0] == "s":
                i = seen.get(g[1])
                if i is not None:
                    m = out[i][2] | g[2]
                    if m == 7:
                        return TRUE
                    out[i] = ("s", g[1], m)
                    continue
                seen[g[1]] = len(out)
            out.append(g)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


_facache = {}


def f_z3(f, eps=None):
    t = f[0]
    if t == "T":
        return z3.BoolVal(True)
    if t == "F":
        return z3.BoolVal(False)
    if t == "s":
        if eps is None:
            key = (f[1], f[2])
            r = _facache.get(key)
            if r is None:
                if len(_facache) > 40000:
                    _facache.clear()
                ctx = z3.main_ctx()
                c = ctx.ref()
                p, o, m = f[1].z(), _zq(F(0)), f[2]
                pa, oa = p.as_ast(), o.as_ast()
                if m == 1:
                    a = z3.Z3_mk_lt(c, pa, oa)
                elif m == 3:
                    a = z3.Z3_mk_le(c, pa, oa)
                elif m == 4:
                    a = z3.Z3_mk_gt(c, pa, oa)
                elif m == 6:
                    a = z3.Z3_mk_ge(c, pa, oa)
                else:
                    a = z3.Z3_mk_eq(c, pa, oa)
                r = z3.BoolRef(a, ctx)
                if m == 5:
                    r = z3.Not(r)
                _facache[key] = r
            return r
        p, m = f[1].z(), f[2]
        alts = []
        if m & NEG:
            alts.append(p <= -eps)
        if m & POS:
            alts.append(p >= eps)
        if m & ZER:
            alts.append(p == 0)
        return alts[0] if len(alts) == 1 else z3.Or(alts)
    if eps is not None:
        subs = [f_z3(x, eps) for x in f[1]]
        return z3.And(subs) if t == "and" else z3.Or(subs)
    r = _facache.get(f)
    if r is None:
        subs = [f_z3(x) for x in f[1]]
        ctx = z3.main_ctx()
        ar = (z3.Ast * len(subs))(*[x.as_ast() for x in subs])
        mkf = z3.Z3_mk_and if t == "and" else z3.Z3_mk_or
        r = _facache[f] = z3.BoolRef(mkf(ctx.ref(), len(subs), ar), ctx)
    return r


def f_eval(f, model):
    t = f[0]
    if t == "T":
        return True
    if t == "F":
        return False
    if t == "s":
        v = f[1].ev(model)
        return bool((NEG if v < 0 else (POS if v > 0 else ZER)) & f[2])
    if t == "and":
        return all(f_eval(x, model) for x in f[1])
    return any(f_eval(x, model) for x in f[1])


def f_vars(f, acc=None):
    acc = set() if acc is None else acc
    if f[0] == "s":
        acc |= f[1].vars()
    elif f[0] in ("and", "or"):
        for x in f[1]:
            f_vars(x, acc)
    return acc


# ----------------------------------------------------------------------------
# engine


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged_trivially = 0
        self.discharged_solver = 0
        self.obl_unknown = 0
        self.infeasible = 0
        self.aborted = {}
        self.unsupported = {}
        self.reach = {}

    def merge(self, d):
        for k, v in d.items():
            cur = getattr(self, k)
            if isinstance(cur, dict):
                for kk, vv in v.items():
                    cur[kk] = cur.get(kk, 0) + vv
            else:
                setattr(self, k, cur + v)


_nlt = None


def NL_TACTIC():
    global _nlt
    if _nlt is None:
        _nlt = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat")
    return _nlt


_nlc = {}


def f_nonlin(f):
    if f[0] == "s":
        return f[1].degree() > 1
    if f[0] in ("and", "or"):
        v = _nlc.get(f)
        if v is None:
            if len(_nlc) > 50000:
                _nlc.clear()
            v = _nlc[f] = any(f_nonlin(g) for g in f[1])
        return v
    return False


class Engine:
    """Executes one path; the driver re-executes with decision prefixes."""

    def __init__(self, prefix=(), stats=None, qtimeout=4000):
        self.prefix = list(prefix)
        self.trace = []
        self.new = []  # alternative prefixes discovered
        self.stats = stats or Stats()
        self.pc = []  # asserted formulas, in order
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", qtimeout)
        self.qtimeout = qtimeout
        self.known = {}  # canonical poly -> allowed sign mask
        self.kform = {}  # composite formula -> bool
        self.model = {}  # var -> F ; None if unknown
        self.memo = {}
        self.defs = []
        self.nvar = 0
        self.inputs = {}  # name -> ('real'|'int', lo, hi)
        self.abstract = False
        self.logvars = {}
        self.deadline = None
        self.max_decisions = 100000
        self.depends_stub = set()
        self.choices = []
        self.nonlin = False

    # -- variables
    def fresh(self, tag, isint=False):
        self.nvar += 1
        return ("i!" if isint else "") + "%s#%d" % (tag, self.nvar)

    def input(self, name, lo, hi, isint=False):
        v = ("i!" if isint else "") + name
        self.inputs[v] = ("int" if isint else "real", lo, hi)
        r = R.var(v, isint)
        if self.model is not None:
            n = len(self.inputs)
            if isint:
                val = F(min(max(0, lo if lo is not None else 0), hi if hi is not None else 0))
                if lo is not None and val < lo:
                    val = F(lo)
            else:
                if lo is None or hi is None:
                    val = F((n * 7) % 11 - 5, 3)
                else:
                    val = F(lo) + (F(hi) - F(lo)) * F((n * 7) % 13 + 1, 15)
            self.model[v] = val
        p = Poly({(v,): F(1)})
        if lo is not None:
            self.assert_(f_sign(p.add(Poly({(): F(lo)}) if lo else ZERO, -1), ZER | POS))
        if hi is not None:
            self.assert_(f_sign(p.add(Poly({(): F(hi)}) if hi else ZERO, -1), ZER | NEG))
        return r

    def define(self, key, tag, mk, isint=False):
        """Memoised definitional variable. mk(poly_of_var) -> (formula, evaluator)"""
        v = self.memo.get(key)
        if v is None:
            v = self.fresh(tag, isint)
            self.memo[key] = v
            p = Poly({(v,): F(1)})
            f, ev = mk(p)
            if self.model is not None:
                try:
                    val = ev(self.model) if ev else None
                except Exception:
                    val = None
                if val is None:
                    self.model = None
                else:
                    self.model[v] = F(val)
            self.assert_(f)
        return v

    # -- constraints
    def learn(self, f):
        if f[0] == "s":
            self.known[f[1]] = self.known.get(f[1], 7) & f[2]
        elif f[0] == "and":
            for g in f[1]:
                self.learn(g)
            self.kform[f] = True
        elif f[0] == "or":
            self.kform[f] = True
            self.kform[f_not(f)] = False

    def assert_(self, f):
        if f[0] == "T":
            return
        self.pc.append(f)
        self.pending.append(f)
        if not self.nonlin and f_nonlin(f):
            self.nonlin = True
        self.learn(f)
        if self.model is not None:
            try:
                if not f_eval(f, self.model):
                    self.model = None
            except KeyError:
                self.model = None

    def flush(self):
        if self.pending:
            self.solver.add([f_z3(f) for f in self.pending])
            self.pending = []

    def check_nl(self, extra):
        """non-linear query: one-shot nlsat pipeline; None if it gives up"""
        t0 = time.time()
        s = NL_TACTIC().solver()
        s.set("timeout", 1500)
        s.add([f_z3(f) for f in self.pc])
        if extra:
            s.add(*extra)
        r = s.check()
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t0
        if r == z3.unknown:
            st.unknown += 1
            return None
        if r == z3.sat:
            st.sat += 1
            self.last_model = s.model()
        else:
            st.unsat += 1
            self.last_model = None
        return r

    def check(self, *extra, timeout=None, ef=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t0 = time.time()
        if self.nonlin or (ef is not None and f_nonlin(ef)):
            r = self.check_nl(extra)
            if r is not None:
                return r
        self.flush()
        if timeout:
            self.solver.set("timeout", timeout)
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if timeout:
            self.solver.set("timeout", self.qtimeout)
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t0
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def grab_model(self):
        m = self.last_model
        if m is None:
            return None
        out = {}
        names = set(self.inputs)
        for f in self.pc:
            f_vars(f, names)
        for v in names:
            zv = z3.Int(v) if v.startswith("i!") else z3.Real(v)
            val = m.eval(zv, model_completion=True)
            q = _num(val)
            if q is None:
                return None
            out[v] = q
        return out

    def ensure_model(self):
        """Current-path model (rational) or None when the solver cannot give one."""
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                self.model = self.grab_model()
        return self.model

    def simp(self, f):
        """True/False when decided by already-known facts, else None."""
        t = f[0]
        if t == "T":
            return True
        if t == "F":
            return False
        if t == "s":
            k = self.known.get(f[1])
            if k is not None:
                if k & f[2] == 0:
                    return False
                if k & ~f[2] & 7 == 0:
                    return True
            return None
        v = self.kform.get(f)
        if v is not None:
            return v
        if t == "and":
            allt = True
            for g in f[1]:
                s = self.simp(g)
                if s is False:
                    return False
                if s is None:
                    allt = False
            return True if allt else None
        anyn = False
        for g in f[1]:
            s = self.simp(g)
            if s is True:
                return True
            if s is None:
                anyn = True
        return None if anyn else False

    def decide(self, f):
        s = self.simp(f)
        if s is not None:
            return s
        i = len(self.trace)
        if i < len(self.prefix):
            out = self.prefix[i]
            self.trace.append(out)
            self.assert_(f if out else f_not(f))
            return out
        if i > self.max_decisions:
            raise PathAbort("max decisions")
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        self.stats.decisions += 1
        m = self.ensure_model()
        if m is not None:
            try:
                side = f_eval(f, m)
            except KeyError:
                side = None
                self.model = m = None
        if m is not None:
            other = f_not(f) if side else f
            r = self.check(f_z3(other), ef=other)
            if r != z3.unsat:
                self.new.append(self.trace + [not side])
            self.trace.append(side)
            self.assert_(f if side else f_not(f))
            return side
        r1 = self.check(f_z3(f), ef=f)
        if r1 == z3.unsat:
            self.trace.append(False)
            self.assert_(f_not(f))
            return False
        m1 = self.grab_model() if r1 == z3.sat else None
        r2 = self.check(f_z3(f_not(f)), ef=f)
        if r2 != z3.unsat:
            self.new.append(self.trace + [False])
        self.trace.append(True)
        self.assert_(f)
        if m1 is not None:
            self.model = m1
        return True

    def choose(self, n, what=""):
        """Nondeterministic choice of an index (schedule, fault, stub outcome)."""
        if n <= 0:
            raise PathInfeasible()
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            out = self.prefix[i]
            self.trace.append(out)
            self.choices.append(out)
            return out
        self.stats.decisions += 1
        for k in range(n - 1, 0, -1):
            self.new.append(self.trace + [k])
        self.trace.append(0)
        self.choices.append(0)
        return 0

    def concretise(self, r):
        """Fork over the possible integer values of r."""
        p = r.poly()
        for _ in range(4096):
            i = len(self.trace)
            if i < len(self.prefix):
                v, out = self.prefix[i]
                self.trace.append((v, out))
                f = f_sign(p.add(Poly({(): v}) if v else ZERO, -1), ZER)
                self.assert_(f if out else f_not(f))
                if out:
                    return int(v)
                continue
            m = self.ensure_model()
            if m is None:
                raise Unsupported("cannot concretise: solver gave no rational model")
            try:
                v = p.ev(m)
            except KeyError:
                self.model = None
                continue
            if v.denominator != 1:
                raise Unsupported("concretising a non-integer")
            f = f_sign(p.add(Poly({(): v}) if v else ZERO, -1), ZER)
            s = self.simp(f)
            if s is True:
                return int(v)
            self.stats.decisions += 1
            r2 = self.check(f_z3(f_not(f)), ef=f)
            if r2 != z3.unsat:
                self.new.append(self.trace + [(v, False)])
            self.trace.append((v, True))
            self.assert_(f)
            return int(v)
        raise Unsupported("integer with too many values")

    def assume(self, f):
        s = self.simp(f)
        if s is True:
            return
        if s is False:
            raise PathInfeasible()
        self.assert_(f)
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                self.model = self.grab_model()


def _num(val):
    if z3.is_int_value(val):
        return F(val.as_long())
    if z3.is_rational_value(val):
        return F(val.numerator_as_long(), val.denominator_as_long())
    return None


class _Cur:
    e = None


CUR = _Cur()


def eng():
    if CUR.e is None:
        raise Unsupported("no engine")
    return CUR.e


# ----------------------------------------------------------------------------
# booleans


class B:
    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    @staticmethod
    def mk(f):
        if f[0] == "T":
            return True
        if f[0] == "F":
            return False
        return B(f)

    def __bool__(self):
        return eng().decide(self.f)

    def __and__(self, o):
        return B.mk(f_and(self.f, bf(o)))

    __rand__ = __and__

    def __or__(self, o):
        return B.mk(f_or(self.f, bf(o)))

    __ror__ = __or__

    def __invert__(self):
        return B.mk(f_not(self.f))

    def __xor__(self, o):
        g = bf(o)
        return B.mk(f_or(f_and(self.f, f_not(g)), f_and(f_not(self.f), g)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, B)):
            return ~self ^ o if isinstance(o, B) else (self if o else B.mk(f_not(self.f)))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def num(self):
        e = eng()
        f = self.f

        def mk(p):
            one = p.add(ONE, -1)
            return (
                f_or(f_and(f, f_sign(one, ZER)), f_and(f_not(f), f_sign(p, ZER))),
                lambda m: F(1) if f_eval(f, m) else F(0),
            )

        v = e.define(("b2n", f), "b", mk, isint=True)
        return R.var(v, True)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _a(op):
        def fwd(self, o):
            return getattr(self.num(), op)(o)

        return fwd

    for _op in "add radd sub rsub mul rmul truediv rtruediv lt le gt ge neg pow".split():
        locals()["__%s__" % _op] = _a("__%s__" % _op) if _op != "neg" else (lambda self: -self.num())
    del _a, _op

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "B(%r)" % (self.f,)


def bf(x):
    """formula of a bool-like"""
    if isinstance(x, B):
        return x.f
    if isinstance(x, R):
        return (x != 0).f if isinstance(x != 0, B) else (TRUE if x != 0 else FALSE)
    return TRUE if x else FALSE


# ----------------------------------------------------------------------------
# reals


def _msort(a):
    return tuple(sorted(a, key=lambda p: p.key))


def _cancel(nf, df):
    """remove common factors of two factor tuples"""
    if not nf or not df:
        return nf, df
    d = list(df)
    n = []
    for p in nf:
        if p in d:
            d.remove(p)
        else:
            n.append(p)
    return tuple(n), tuple(d)


class R:
    """c * prod(nf) / prod(df), canonical factor polynomials; or a special value."""

    __slots__ = ("c", "nf", "df", "sp", "isint")
    __array_priority__ = 1000

    def __init__(self, c, nf=(), df=(), sp=None, isint=False):
        self.c = c
        self.nf = nf
        self.df = df
        self.sp = sp
        self.isint = isint

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, B):
            return x.num()
        if isinstance(x, F):
            return R(x)
        if isinstance(x, (bool, np.bool_)):
            return R(F(int(x)), isint=True)
        if isinstance(x, (int, np.integer)):
            return R(F(int(x)), isint=True)
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if math.isnan(x):
                return NAN
            if math.isinf(x):
                return INF if x > 0 else NINF
            return R(F(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return R.of(x.item())
        if isinstance(x, (complex, np.complexfloating)):
            raise Unsupported("complex constant")
        raise TypeError("cannot convert %r to a real" % type(x))

    @staticmethod
    def var(v, isint=False):
        return R(F(1), (Poly({(v,): F(1)}),), (), None, isint)

    @staticmethod
    def from_poly(p, isint=False):
        c = p.const()
        if c is not None:
            return R(c, isint=isint)
        k, q = p.normal()
        return R(k, (q,), (), None, isint)

    def is_const(self):
        return self.sp is None and not self.nf and not self.df or self.c == 0 and self.sp is None

    def value(self):
        if self.sp:
            return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[self.sp]
        return self.c

    def poly(self):
        if self.df or self.sp:
            raise Unsupported("not a polynomial")
        p = Poly({(): self.c}) if self.c else ZERO
        for f in self.nf:
            p = p.mul(f)
        return p

    def numpoly(self):
        p = Poly({(): self.c}) if self.c else ZERO
        for f in self.nf:
            p = p.mul(f)
        return p

    def key(self):
        return ("R", self.c, self.nf, self.df, self.sp)

    # -- arithmetic
    def _bin(self, o, k):
        """self + k*o"""
        if self.sp or o.sp:
            a = self.value() if self.sp else None
            b = (o.value() * k) if o.sp else None
            if a is not None and b is not None:
                return R.of(a + b)
            return R.of(a if a is not None else b)
        if self.c == 0 and not self.df:
            return o if k == 1 else R(o.c * k, o.nf, o.df, None, o.isint)
        if o.c == 0:
            return self
        isint = self.isint and o.isint
        if not self.nf and not o.nf and not self.df and not o.df:
            return R(self.c + k * o.c, isint=isint)
        if self.nf == o.nf and self.df == o.df:
            c = self.c + k * o.c
            if c == 0:
                return R(F(0), isint=isint)
            return R(c, self.nf, self.df, None, isint)
        # common numerator factors
        if len(self.nf) > 1 or len(o.nf) > 1:
            com = []
            rest = list(o.nf)
            for p in self.nf:
                if p in rest:
                    rest.remove(p)
                    com.append(p)
        else:
            com = ()
        if com:
            n1, _ = _cancel(self.nf, tuple(com))
            n2, _ = _cancel(o.nf, tuple(com))
        else:
            n1, n2 = self.nf, o.nf
        # common denominator
        if self.df or o.df:
            rest = list(o.df)
            extra1 = []  # factors of o.df missing from self.df
            for p in self.df:
                if p in rest:
                    rest.remove(p)
                    extra1.append(None)
            miss_self = tuple(rest)  # must multiply self by these
            d2 = list(self.df)
            for p in o.df:
                if p in d2:
                    d2.remove(p)
            miss_o = tuple(d2)
            den = _msort(self.df + miss_self)
        else:
            miss_self = miss_o = den = ()
        p1 = Poly({(): self.c})
        for f in n1 + miss_self:
            p1 = p1.mul(f)
        p2 = Poly({(): o.c * k})
        for f in n2 + miss_o:
            p2 = p2.mul(f)
        p = p1.add(p2)
        c = p.const()
        if c is not None:
            if c == 0:
                return R(F(0), isint=isint)
            nf = tuple(com)
            kk = c
        else:
            kk, q = p.normal()
            nf = _msort(tuple(com) + (q,))
        nf, den = _cancel(nf, den)
        return R(kk, nf, den, None, isint)

    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self._bin(o, -1)

    def __rsub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o._bin(self, -1)

    def __neg__(self):
        if self.sp:
            return R.of(-self.value())
        return R(-self.c, self.nf, self.df, None, self.isint)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            return _spmul(self, o)
        c = self.c * o.c
        isint = self.isint and o.isint
        if c == 0:
            return R(F(0), isint=isint)
        if not o.nf and not o.df:
            return R(c, self.nf, self.df, None, isint)
        if not self.nf and not self.df:
            return R(c, o.nf, o.df, None, isint)
        n1, d2 = _cancel(self.nf, o.df)
        n2, d1 = _cancel(o.nf, self.df)
        return R(c, _msort(n1 + n2), _msort(d1 + d2), None, isint)

    __rmul__ = __mul__

    def inv(self):
        """1/self, numpy semantics; forks on self == 0"""
        if self.sp:
            return NAN if self.sp == "nan" else R(F(0))
        if self.is_const():
            if self.c == 0:
                return None
            return R(1 / self.c)
        z = self == 0
        if bool(z):
            return None
        return R(1 / self.c, self.df, self.nf)

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if o.sp is None and self.sp is None and not o.is_const():
            # structural cancellation first: (x*d)/d; the zero test is still made
            pass
        i = o.inv()
        if i is None:  # division by zero
            if self.sp:
                return self
            if self.is_const():
                return NAN if self.c == 0 else (INF if self.c > 0 else NINF)
            if bool(self == 0):
                return NAN
            return INF if bool(self > 0) else NINF
        if i.sp:
            return i
        r = self * i
        return R(r.c, r.nf, r.df, r.sp, False)

    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o.__truediv__(self)

    def __pow__(self, k):
        if isinstance(k, R):
            if not k.is_const():
                raise Unsupported("symbolic exponent")
            k = k.c
        k = F(k)
        if k.denominator == 1:
            n = int(k)
            if n < 0:
                return 1 / (self ** (-n))
            r = R(F(1), isint=self.isint)
            for _ in range(n):
                r = r * self
            return r
        if k == F(1, 2):
            return r_sqrt(self)
        raise Unsupported("power %s" % k)

    def __rpow__(self, o):
        if self.is_const() and self.c.denominator == 1:
            return R.of(o) ** int(self.c)
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return r_abs(self)

    def __floordiv__(self, o):
        o = R.of(o)
        if self.is_const() and o.is_const() and o.c != 0:
            return R(F(self.c // o.c), isint=True)
        if self.isint and o.is_const() and o.isint and o.c > 0:
            return r_floordiv(self, int(o.c))
        if o.is_const() and o.c != 0:
            from .arr import s_floor

            return s_floor(self / o)
        raise Unsupported("symbolic floor division")

    def __mod__(self, o):
        o = R.of(o)
        if self.is_const() and o.is_const() and o.c != 0:
            return R(F(self.c % o.c), isint=self.isint and o.isint)
        if self.isint and o.is_const() and o.isint and o.c > 0:
            return self - r_floordiv(self, int(o.c)) * o
        if o.is_const() and o.c != 0:
            return self - (self // o) * o
        raise Unsupported("symbolic modulo")

    def __rfloordiv__(self, o):
        return R.of(o) // self

    def __rmod__(self, o):
        return R.of(o) % self

    # -- comparisons
    def sign(self, mask):
        """formula: sign(self) in mask  (self not special)"""
        if self.is_const():
            s = NEG if self.c < 0 else (POS if self.c > 0 else ZER)
            return TRUE if s & mask else FALSE
        if not self.df and len(self.nf) == 1:
            return f_sign(self.nf[0] if self.c > 0 else self.nf[0].scale(-1), mask)
        # distinct factors with parity
        par = {}
        for p in self.nf:
            par[p] = par.get(p, 0) + 1
        dpar = {}
        for p in self.df:
            dpar[p] = dpar.get(p, 0) + 1
        facs = list(par.items()) + list(dpar.items())
        nn = len(par)
        neg0 = self.c < 0
        if len(facs) > 4:
            p = self.numpoly()
            for q, k in dpar.items():
                if k % 2:
                    p = p.mul(q)
            # denominators are known non-zero on this path
            return f_sign(p, mask)
        # zero: any numerator factor zero
        alts = []
        if mask & ZER:
            for p, k in facs[:nn]:
                alts.append(f_sign(p, ZER))
        if mask & (NEG | POS):
            # enumerate strict signs of odd factors; even factors just non-zero
            odd = [p for p, k in facs if k % 2]
            even = [p for i, (p, k) in enumerate(facs) if k % 2 == 0 and i < nn]
            base = [f_sign(p, NEG | POS) for p in even]
            for sg in itertools.product((NEG, POS), repeat=len(odd)):
                neg = neg0 ^ (sum(1 for s in sg if s == NEG) % 2 == 1)
                if mask & (NEG if neg else POS):
                    alts.append(f_and(*base, *[f_sign(p, s) for p, s in zip(odd, sg)]))
        return f_or(*alts)

    def _cmp(self, o, mask, spop):
        o = _co(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            a = self.value() if self.sp else 0.0
            b = o.value() if o.sp else 0.0
            return bool(spop(a, b))
        d = self._bin(o, -1)
        e = CUR.e
        if e is not None and e.logvars and not d.df:
            g = log_form(d, e)
            if g is not None:
                return B.mk(g.sign(mask))
        return B.mk(d.sign(mask))

    def __lt__(self, o):
        return self._cmp(o, NEG, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, NEG | ZER, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, POS, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, POS | ZER, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, ZER, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, NEG | POS, lambda a, b: a != b)

    def __bool__(self):
        if self.sp:
            return True
        return bool(self != 0)

    def __hash__(self):
        if self.is_const():
            return hash(self.c)
        return hash(self.key())

    # -- conversions
    def __float__(self):
        if self.sp:
            return self.value()
        if self.is_const():
            return float(self.c)
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.c.denominator == 1:
            return int(self.c)
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return eng().concretise(self)

    def __int__(self):
        if self.sp:
            return int(self.value())
        if self.is_const():
            return int(self.c)
        if self.isint:
            return eng().concretise(self)
        raise Unsupported("int() of a symbolic real")

    def __round__(self, nd=None):
        if self.is_const() and not nd:
            r = R(F(round(self.c)), isint=True)
            return int(r.c) if nd is None else r
        if self.isint:
            return self
        raise Unsupported("round() of a symbolic real")

    def __trunc__(self):
        if self.is_const():
            return int(self.c)
        if self.isint:
            return self
        return r_trunc(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(F(0))

    # numpy-scalar look-alikes
    @property
    def dtype(self):
        return np.dtype("int64") if self.isint else np.dtype("float64")

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def astype(self, dt):
        if np.dtype(dt).kind in "iu" and not self.isint:
            return r_trunc(self)
        return self

    def is_integer(self):
        if self.is_const():
            return self.c.denominator == 1
        return self.isint

    def copy(self):
        return self

    def sqrt(self):
        return r_sqrt(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if self.sp:
            return "R(%s)" % self.sp
        if self.is_const():
            return "R(%s)" % self.c

        def pp(p):
            return "+".join("%s%s" % ("" if c == 1 else "%s*" % c, "*".join(m)) for m, c in p.key)

        return "R(%s*%s/%s)" % (self.c, "*".join("(%s)" % pp(p) for p in self.nf), "*".join("(%s)" % pp(p) for p in self.df))

    def __format__(self, spec):
        return repr(self)


NAN = R(F(0), sp="nan")
INF = R(F(0), sp="inf")
NINF = R(F(0), sp="-inf")


def _co(o):
    if isinstance(o, R):
        return o
    if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
    try:
        return R.of(o)
    except TypeError:
        return NotImplemented


def _spmul(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN

    def sg(x):
        if x.sp:
            return 1 if x.sp == "inf" else -1
        if x.is_const():
            return (x.c > 0) - (x.c < 0)
        if bool(x == 0):
            return 0
        return 1 if bool(x > 0) else -1

    s = sg(a) * sg(b)
    return NAN if s == 0 else (INF if s > 0 else NINF)


def _poly_def(r):
    """polynomial equal to r, introducing a definitional quotient variable if needed"""
    if not r.df:
        return r.numpoly()
    e = eng()
    num = r.numpoly()
    den = ONE
    for p in r.df:
        den = den.mul(p)
    v = e.define(
        ("quot", r.key()),
        "q",
        lambda p: (f_sign(p.mul(den).add(num, -1), ZER), lambda m: num.ev(m) / den.ev(m)),
    )
    return Poly({(v,): F(1)})


def r_abs(x):
    if x.sp:
        return NAN if x.sp == "nan" else INF
    if x.is_const():
        return R(abs(x.c), isint=x.isint)
    e = eng()
    pos = e.simp(x.sign(POS | ZER))
    if pos is True:
        return x
    neg = e.simp(x.sign(NEG | ZER))
    if neg is True:
        return -x
    # |c*prod| : canonical absolute variable of the product
    y = R(F(1), x.nf, x.df, None, x.isint)
    p = _poly_def(y)

    def mk(v):
        return (
            f_or(
                f_and(f_sign(p, POS | ZER), f_sign(v.add(p, -1), ZER)),
                f_and(f_sign(p, NEG), f_sign(v.add(p, 1), ZER)),
            ),
            lambda m: abs(p.ev(m)),
        )

    v = e.define(("abs", y.key()), "abs", mk, isint=x.isint and not x.df)
    e.learn(f_sign(Poly({(v,): F(1)}), POS | ZER))
    return R(abs(x.c), (Poly({(v,): F(1)}),), (), None, x.isint)


def r_max(xs):
    xs = [R.of(x) for x in xs]
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if any(x.sp == "nan" for x in xs):
        return NAN
    if any(x.sp == "inf" for x in xs):
        return INF
    fin = [x for x in xs if x.sp is None]
    if not fin:
        return xs[0]
    # drop duplicates, fold constants
    cs = [x.c for x in fin if x.is_const()]
    sy = {}
    for x in fin:
        if not x.is_const():
            sy.setdefault(x.key(), x)
    if not sy:
        return R(max(cs), isint=all(x.isint for x in fin))
    items = list(sy.values())
    isint = all(x.isint for x in fin)
    if cs:
        items.append(R(max(cs), isint=isint))
    if len(items) == 1:
        return items[0]
    # pairwise dominance already known
    e = eng()
    polys = []
    for x in items:
        polys.append(_poly_def(x))
    keep = []
    for i, p in enumerate(polys):
        dom = False
        for j, q in enumerate(polys):
            if i != j:
                d = q.add(p, -1)
                s = e.simp(f_sign(d, POS | ZER))
                if s is True and (j < i or e.simp(f_sign(d, POS)) is True):
                    dom = True
                    break
        if not dom:
            keep.append(p)
    if not keep:
        keep = polys
    if len(keep) == 1:
        return R.from_poly(keep[0], isint)
    key = ("max", tuple(sorted(p.key for p in keep)))

    def mk(v):
        return (
            f_and(
                f_or(*[f_sign(v.add(p, -1), ZER) for p in keep]),
                *[f_sign(v.add(p, -1), POS | ZER) for p in keep],
            ),
            lambda m: max(p.ev(m) for p in keep),
        )

    v = e.define(key, "max", mk, isint=isint)
    return R.var(v, isint)


def r_min(xs):
    xs = [R.of(x) for x in xs]
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return -r_max([-x for x in xs])


def r_sqrt(x):
    x = R.of(x)
    if x.sp:
        return x if x.sp != "-inf" else NAN
    if x.is_const():
        if x.c < 0:
            return NAN
        n, d = x.c.numerator, x.c.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            return R(F(a, b))
        return R(F(math.sqrt(x.c)))
    e = eng()
    if bool(x < 0):
        return NAN
    p = _poly_def(x)

    def ev(m):
        v = p.ev(m)
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return F(a, b)
        return None

    def mk(v):
        return f_and(f_sign(v, POS | ZER), f_sign(v.mul(v).add(p, -1), ZER)), ev

    v = e.define(("sqrt", p.key), "sqrt", mk)
    return R.var(v)


def r_trunc(x):
    """C cast float->int"""
    if x.isint:
        return x
    if x.is_const():
        return R(F(int(x.c)), isint=True)
    e = eng()
    p = _poly_def(x)

    def mk(v):
        d = p.add(v, -1)  # x - v in (-1,1), same sign as x
        return (
            f_or(
                f_and(f_sign(p, POS | ZER), f_sign(d, POS | ZER), f_sign(d.add(ONE, -1), NEG)),
                f_and(f_sign(p, NEG), f_sign(d, NEG | ZER), f_sign(d.add(ONE, 1), POS)),
            ),
            lambda m: F(int(p.ev(m))),
        )

    v = e.define(("trunc", x.key()), "trunc", mk, isint=True)
    return R.var(v, True)


def r_floordiv(x, k):
    e = eng()
    p = x.poly()

    def mk(v):
        d = p.add(v, -k)
        return (
            f_and(f_sign(d, POS | ZER), f_sign(d.add(ONE, -k), NEG)),
            lambda m: F(p.ev(m) // k),
        )

    v = e.define(("fdiv", x.key(), k), "fdiv", mk, isint=True)
    return R.var(v, True)


def log_form(d, e):
    """c0 + q*(sum of logs - sum of logs), q > 0, has the sign of prod(x)/prod(y) - exp(-c0/q)"""
    p = d.poly()
    if not (p.vars() & e.logvars.keys()):
        return None
    c0, q, up, down = F(0), None, R(F(1)), R(F(1))
    for m, c in p.t.items():
        if m == ():
            c0 = c
            continue
        if len(m) != 1 or m[0] not in e.logvars or (q is not None and abs(c) != q):
            return None
        q = abs(c)
        if c > 0:
            up = up * e.logvars[m[0]]
        else:
            down = down * e.logvars[m[0]]
    try:
        k = F(math.exp(float(-c0 / q)))
    except OverflowError:
        return None
    return up - down * R(k)


def r_log(x):
    """natural logarithm of a positive value; comparisons are decided through log_form"""
    x = R.of(x)
    if x.sp:
        return x
    e = eng()
    key = ("log", x.key())
    p = x.poly() if not x.df else None

    def ev(m):
        v = p.ev(m)
        return F(math.log(float(v))) if v > 0 else None

    v = e.define(key, "log", lambda v: (TRUE, ev if p is not None else None))
    e.logvars[v] = x
    return R.var(v)


def r_exp(x):
    x = R.of(x)
    e = eng()
    if x.df or x.sp:
        return r_ufun("exp", [x], lo=0)
    out = R(F(1))
    for m, c in x.poly().t.items():
        if m == ():
            out = out * R(F(math.exp(float(c))))
        elif len(m) == 1 and m[0] in e.logvars and c in (1, -1):
            out = out * e.logvars[m[0]] if c == 1 else out / e.logvars[m[0]]
        elif len(m) == 1 and m[0] in e.logvars and c in (F(1, 2), F(-1, 2)):
            r = r_sqrt(e.logvars[m[0]])
            out = out * r if c > 0 else out / r
        else:
            return r_ufun("exp", [x], lo=0)
    return out


def r_ufun(name, args, lo=None, hi=None, ev=None):
    """Uninterpreted function value: equal arguments give the equal value."""
    e = eng()
    args = [R.of(a) for a in args]
    key = ("uf", name, tuple(a.key() for a in args))
    e.abstract = True

    def mk(v):
        fs = []
        if lo is not None:
            fs.append(f_sign(v.add(Poly({(): F(lo)}) if lo else ZERO, -1), POS | ZER))
        if hi is not None:
            fs.append(f_sign(v.add(Poly({(): F(hi)}) if hi else ZERO, -1), NEG | ZER))
        default = F(lo if lo is not None else 0) if hi is None else (F(lo or 0) + F(hi)) / 2
        return f_and(*fs), (lambda m: default)

    v = e.define(key, name, mk)
    return R.var(v)
