"""Loads the *current* source of /repo/PyEMD and executes it against symbolic
stand-ins for numpy, scipy, multiprocessing, random numbers, plotting, numba."""
import ast
import builtins
import copy
import hashlib
import logging
import math
import os
import sys
import types
import zlib
from fractions import Fraction as F

import numpy as np

from . import arr as A, core
from .arr import (
    C, CArr, FUNCS, NumpyShim, SymArray, _emap, _stack_list, arr, cc, conc_mask, conv, F64, I64, has_sym, lin_solve, mk,
    mk_full, strip, tag_of, toobj, wrap,
)
from .core import B, CUR, INF, NAN, NINF, POS, NEG, ZER, Poly, R, Unsupported, eng, f_and, f_or, f_sign, r_max, r_min, r_ufun, bf

logging.disable(logging.CRITICAL)

REPO = os.environ.get("VERIF_REPO", "/repo")


# ----------------------------------------------------------------------------
# random numbers

RND_BOUND = 4


class SymRandomState:
    """Stream of arbitrary (bounded) draws named by (seed key, position)."""

    def __init__(self, seed=None):
        self.seed(seed)

    def seed(self, seed=None):
        if seed is None:
            e = eng()
            e.rng_count = getattr(e, "rng_count", 0) + 1
            self.key = "os%d" % e.rng_count
        elif isinstance(seed, R) and not seed.is_const():
            self.key = "s%d" % eng().concretise(seed)
        elif isinstance(seed, np.ndarray) or isinstance(seed, (list, tuple)):
            self.key = "seq" + "_".join(str(int(x)) for x in np.asarray(strip(seed)).reshape(-1))
        else:
            self.key = "s%d" % int(seed)
        self.pos = 0

    def get_state(self, legacy=True):
        return ("MT19937", self.key, self.pos)

    def set_state(self, st):
        self.key, self.pos = st[1], st[2]

    def _draw(self, kind, lo, hi):
        e = eng()
        name = "rnd_%s_%s_%d" % (kind, self.key, self.pos)
        self.pos += 1
        v = e.memo.get(("rnd", name))
        if v is None:
            e.memo[("rnd", name)] = name
            return e.input(name, lo, hi)
        return R.var(name)

    def _sized(self, size, one):
        if size is None:
            return one()
        if isinstance(size, (R, B)):
            size = size.__index__()
        if isinstance(size, (tuple, list)):
            size = tuple(s.__index__() if isinstance(s, R) else int(s) for s in size)
        o = np.empty(size, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = one()
        return mk(o, F64)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = R.of(loc), R.of(scale)
        if bool(scale < 0):
            raise ValueError("scale < 0")
        return self._sized(size, lambda: loc + scale * self._draw("n", -RND_BOUND, RND_BOUND))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *d):
        return self.normal(size=d or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = R.of(low), R.of(high)
        return self._sized(size, lambda: low + (high - low) * self._draw("u", 0, 1))

    def random_sample(self, size=None):
        return self.uniform(size=size)

    random = random_sample

    def rand(self, *d):
        return self.uniform(size=d or None)

    def randint(self, low, high=None, size=None, dtype=int):
        """integers derived deterministically from (stream, position): distinct streams when used as seeds"""
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)

        def one():
            p = self.pos
            self.pos += 1
            return derive_int(self.key, p, low, high)

        if size is None:
            return one()
        if isinstance(size, R):
            size = size.__index__()
        n = int(np.prod(size))
        return cc(np.array([one() for _ in range(n)], dtype=np.int64).reshape(size))

    integers = randint
    random_integers = randint

    def permutation(self, x):
        raise Unsupported("permutation")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("RandomState." + n)


def derive_int(key, pos, low, high):
    return low + zlib.crc32(("%s@%d" % (key, pos)).encode()) % max(1, high - low)


class RandomShim:
    RandomState = SymRandomState
    Generator = SymRandomState

    def __init__(self):
        self._st = {}

    @property
    def _g(self):
        e = eng()
        g = getattr(e, "global_rng", None)
        if g is None:
            g = e.global_rng = SymRandomState()
        return g

    @property
    def mtrand(self):
        return self

    @property
    def _rand(self):
        return self._g

    def default_rng(self, seed=None):
        if isinstance(seed, SymRandomState):
            return seed
        return SymRandomState(seed)

    def SeedSequence(self, *a, **k):
        raise Unsupported("SeedSequence")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._g, n)


# ----------------------------------------------------------------------------
# scipy.interpolate models


_op_cache = {}


def _const_seq(X):
    return all(x.is_const() and not x.sp for x in X)


def _check_increasing(X, msg="`x` must be strictly increasing sequence."):
    for i in range(len(X) - 1):
        if not bool(X[i + 1] > X[i]):
            raise ValueError(msg)


def _solveF(M, rhs):
    """Fraction Gaussian elimination; rhs list of columns-vectors per row"""
    n = len(M)
    M = [list(map(F, r)) for r in M]
    b = [list(map(F, r)) for r in rhs]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        b[i], b[p] = b[p], b[i]
        iv = 1 / M[i][i]
        for r in range(n):
            if r != i and M[r][i] != 0:
                k = M[r][i] * iv
                M[r] = [x - k * y for x, y in zip(M[r], M[i])]
                b[r] = [x - k * y for x, y in zip(b[r], b[i])]
    return [[x / M[i][i] for x in b[i]] for i in range(n)]


def spline_slopes(x):
    """not-a-knot cubic spline slope operator (rows: slope_i as combination of y)"""
    n = len(x)
    dx = [x[i + 1] - x[i] for i in range(n - 1)]
    unit = lambda i: [F(1 if j == i else 0) for j in range(n)]
    sl = [[(a - b) / dx[i] for a, b in zip(unit(i + 1), unit(i))] for i in range(n - 1)]
    if n == 2:
        return [sl[0], sl[0]]
    M = [[F(0)] * n for _ in range(n)]
    rhs = [[F(0)] * n for _ in range(n)]
    if n == 3:
        M[0][0] = M[0][1] = F(1)
        rhs[0] = [2 * v for v in sl[0]]
        M[1][0], M[1][1], M[1][2] = dx[1], 2 * (dx[0] + dx[1]), dx[0]
        rhs[1] = [3 * (dx[0] * b + dx[1] * a) for a, b in zip(sl[0], sl[1])]
        M[2][1] = M[2][2] = F(1)
        rhs[2] = [2 * v for v in sl[1]]
        return _solveF(M, rhs)
    for i in range(1, n - 1):
        M[i][i - 1], M[i][i], M[i][i + 1] = dx[i], 2 * (dx[i - 1] + dx[i]), dx[i - 1]
        rhs[i] = [3 * (dx[i] * a + dx[i - 1] * b) for a, b in zip(sl[i - 1], sl[i])]
    d = x[2] - x[0]
    M[0][0], M[0][1] = dx[1], d
    rhs[0] = [((dx[0] + 2 * d) * dx[1] * a + dx[0] ** 2 * b) / d for a, b in zip(sl[0], sl[1])]
    d = x[-1] - x[-3]
    M[-1][-1], M[-1][-2] = dx[-2], d
    rhs[-1] = [(dx[-1] ** 2 * a + (2 * d + dx[-1]) * dx[-2] * b) / d for a, b in zip(sl[-2], sl[-1])]
    return _solveF(M, rhs)


def hermite_row(x, srows, t):
    n = len(x)
    i = 0
    while i < n - 2 and t >= x[i + 1]:
        i += 1
    h = x[i + 1] - x[i]
    u = (t - x[i]) / h
    h00, h10 = (1 + 2 * u) * (1 - u) ** 2, u * (1 - u) ** 2
    h01, h11 = u**2 * (3 - 2 * u), u**2 * (u - 1)
    row = [h * (h10 * a + h11 * b) for a, b in zip(srows[i], srows[i + 1])]
    row[i] += h00
    row[i + 1] += h01
    return row


def _bspl(t, k, i, x, last):
    if k == 0:
        if t[i] <= x < t[i + 1]:
            return F(1)
        if x == last and t[i] < t[i + 1] == last:
            return F(1)
        return F(0)
    r = F(0)
    d = t[i + k] - t[i]
    if d:
        r += (x - t[i]) / d * _bspl(t, k - 1, i, x, last)
    d = t[i + k + 1] - t[i + 1]
    if d:
        r += (t[i + k + 1] - x) / d * _bspl(t, k - 1, i + 1, x, last)
    return r


def op_rows(kind, x, ts):
    """linear interpolation operator rows for constant knots"""
    key = (kind, tuple(x), tuple(ts))
    r = _op_cache.get(key)
    if r is not None:
        return r
    n = len(x)
    rows = []
    if kind == "cubic":
        sl = spline_slopes(x)
        rows = [hermite_row(x, sl, t) for t in ts]
    elif kind == "linear":
        for t in ts:
            i = 0
            while i < n - 2 and t > x[i + 1]:
                i += 1
            row = [F(0)] * n
            u = (t - x[i]) / (x[i + 1] - x[i])
            row[i] += 1 - u
            row[i + 1] += u
            rows.append(row)
    elif kind == "quadratic":
        k = 2
        tt = [(x[i] + x[i + 1]) / 2 for i in range(n - 1)]
        kn = [x[0]] * 3 + tt[1:-1] + [x[-1]] * 3
        nb = len(kn) - k - 1
        Bm = [[_bspl(kn, k, j, xi, x[-1]) for j in range(nb)] for xi in x]
        inv = _solveF(Bm, [[F(1 if i == j else 0) for j in range(n)] for i in range(n)])
        for t in ts:
            bv = [_bspl(kn, k, j, t, x[-1]) for j in range(nb)]
            rows.append([sum(bv[m] * inv[m][j] for m in range(nb)) for j in range(n)])
    if len(_op_cache) > 20000:
        _op_cache.clear()
    _op_cache[key] = rows
    return rows


def lincomb(row, Y):
    s = R(F(0))
    for c, y in zip(row, Y):
        if c:
            s = s + y * R(c)
    return s


class _Interp:
    """base: holds knots; calls record into engine log"""

    kind = None
    minpts = 2

    def __init__(self, x, y, *a, **k):
        axis = k.pop("axis", 0)
        self.X = [R.of(v) for v in toobj(arr(x)).reshape(-1)]
        self.Y = [R.of(v) for v in toobj(arr(y)).reshape(-1)]
        if toobj(arr(y)).ndim != 1:
            raise Unsupported("nd spline data")
        self.opts(a, k)
        if len(self.X) != len(self.Y):
            raise ValueError("x and y arrays must have the same length")
        if len(self.X) < self.minpts:
            raise ValueError("`x` must contain at least %d elements." % self.minpts)
        if any(v.sp for v in self.X + self.Y):
            raise ValueError("`x` must contain only finite values.")
        _check_increasing(self.X)
        e = eng()
        if not hasattr(e, "splines"):
            e.splines = []
        e.splines.append((type(self).__name__, self.X, self.Y))

    def opts(self, a, k):
        if a or any(v is not None and v is not True for v in k.values()):
            raise Unsupported("spline options")

    def __call__(self, t, *a, **k):
        if a or k:
            raise Unsupported("spline evaluation options")
        to = toobj(arr(t))
        ts = [R.of(v) for v in to.reshape(-1)]
        vals = self.evaluate(ts)
        o = np.empty(len(ts), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return wrap(o.reshape(to.shape), F64, to.ndim == 0)

    def evaluate(self, ts):
        if self.kind in ("cubic", "linear", "quadratic") and _const_seq(self.X) and _const_seq(ts):
            rows = op_rows(self.kind, [x.c for x in self.X], [t.c for t in ts])
            return [lincomb(r, self.Y) for r in rows]
        if self.kind == "linear":
            return [self._lin(t) for t in ts]
        return [self.uf(t) for t in ts]

    def _lin(self, t):
        X, Y = self.X, self.Y
        for i in range(len(X) - 1):
            if i == len(X) - 2 or bool(t <= X[i + 1]):
                return Y[i] + (Y[i + 1] - Y[i]) * ((t - X[i]) / (X[i + 1] - X[i]))

    def uf(self, t):
        """contract only: passes through the knots, value is a function of (knots, t)"""
        for x, y in zip(self.X, self.Y):
            q = x == t
            if isinstance(q, bool):
                if q:
                    return y
            elif bool(q):
                return y
        return r_ufun("spl_" + type(self).__name__, self.X + self.Y + [t])


class SymCubicSpline(_Interp):
    kind = "cubic"

    def opts(self, a, k):
        bc = k.pop("bc_type", a[0] if a else "not-a-knot")
        if bc != "not-a-knot":
            raise Unsupported("bc_type")


class SymAkima(_Interp):
    kind = None

    def opts(self, a, k):
        pass


class SymPchip(_Interp):
    kind = None

    def opts(self, a, k):
        pass

    def uf(self, t):
        v = super().uf(t)
        # monotone: value between neighbouring knots
        for i in range(len(self.X) - 1):
            if bool(t >= self.X[i]) and bool(t <= self.X[i + 1]):
                a, b = self.Y[i], self.Y[i + 1]
                eng().assume(
                    f_or(
                        f_and(bf(v >= a), bf(v <= b)),
                        f_and(bf(v <= a), bf(v >= b)),
                    )
                )
                break
        return v


class SymHermite(_Interp):
    def __init__(self, x, y, dydx, *a, **k):
        self.D = [R.of(v) for v in toobj(arr(dydx)).reshape(-1)]
        super().__init__(x, y)

    def evaluate(self, ts):
        out = []
        X, Y, D = self.X, self.Y, self.D
        for t in ts:
            i = 0
            while i < len(X) - 2 and bool(t >= X[i + 1]):
                i += 1
            h = X[i + 1] - X[i]
            u = (t - X[i]) / h
            v = 1 - u
            out.append(
                (1 + 2 * u) * v * v * Y[i] + u * v * v * h * D[i] + u * u * (3 - 2 * u) * Y[i + 1] + u * u * (u - 1) * h * D[i + 1]
            )
        return out


class SymInterp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.bounds_error, self.fill_value = bounds_error, fill_value
        if fill_value is not None and fill_value != "extrapolate":
            raise Unsupported("interp1d fill_value")
        self.extrap = fill_value == "extrapolate"
        kk = {"slinear": "linear", "zero": None, "nearest": None, "previous": None, "next": None}.get(kind, kind)
        if kind not in ("linear", "slinear", "quadratic", "cubic"):
            raise (Unsupported("interp1d kind") if kind in ("zero", "nearest", "previous", "next") else NotImplementedError("%s is unsupported: Use fitpack routines for other types." % kind))
        X = [R.of(v) for v in toobj(arr(x)).reshape(-1)]
        Y = [R.of(v) for v in toobj(arr(y)).reshape(-1)]
        if len(X) != len(Y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            idx = [int(i) for i in FUNCS["argsort"](_stack_list(X))]
            X, Y = [X[i] for i in idx], [Y[i] for i in idx]
        need = {"linear": 1, "quadratic": 3, "cubic": 4}[kk]
        if len(X) < need:
            raise ValueError("The number of derivatives at boundaries does not match")
        if kind in ("quadratic", "cubic"):
            _check_increasing(X, "Expect x to not have duplicates")
        cls = {"linear": _LinI, "quadratic": _QuadI, "cubic": SymCubicSpline}[kk]
        self.impl = cls(_stack_list(X), _stack_list(Y))

    def __call__(self, t):
        to = toobj(arr(t))
        if not self.extrap:
            for v in to.reshape(-1):
                v = R.of(v)
                if bool(v < self.impl.X[0]):
                    raise ValueError("A value in x_new is below the interpolation range.")
                if bool(v > self.impl.X[-1]):
                    raise ValueError("A value in x_new is above the interpolation range.")
        return self.impl(t)


class _LinI(_Interp):
    kind = "linear"
    minpts = 1


class _QuadI(_Interp):
    kind = "quadratic"
    minpts = 3


def sym_find_peaks(x, height=None, **k):
    if k:
        raise Unsupported("find_peaks options")
    o = [R.of(v) for v in toobj(arr(x))]
    n = len(o)
    peaks = []
    i = 1
    while i < n - 1:
        if bool(o[i - 1] < o[i]):
            j = i + 1
            while j < n - 1 and bool(o[j] == o[i]):
                j += 1
            if bool(o[j] < o[i]):
                peaks.append((i + j - 1) // 2)
                i = j
        i += 1
    if height is not None:
        peaks = [p for p in peaks if bool(o[p] >= height)]
    return cc(np.array(peaks, dtype=np.int64)), {}


_hil = {}


def sym_hilbert(x, N=None, axis=-1):
    from scipy.signal import hilbert as real_h

    if N is not None:
        raise Unsupported("hilbert N")
    a = arr(x)
    n = a.shape[-1]
    if n not in _hil:
        H = real_h(np.eye(n), axis=0).imag
        _hil[n] = [[F(round(v * 2**40), 2**40) for v in row] for row in H]
    o = toobj(a)
    out = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape[:-1]):
        row = [R.of(v) for v in o[ix]]
        for i in range(n):
            out[ix + (i,)] = C(row[i], lincomb(_hil[n][i], row))
    return mk(out, np.dtype("complex128"))


@A.fn("unwrap")
def sym_unwrap(p, discont=None, axis=-1, period=6.283185307179586, **k):
    a = arr(p)
    o = toobj(a)
    if axis not in (-1, o.ndim - 1) or discont is not None:
        raise Unsupported("unwrap options")
    out = np.empty(o.shape, dtype=object)
    per = R.of(period)
    half = per / 2
    e = eng()
    for ix in np.ndindex(o.shape[:-1]):
        row = [R.of(v) for v in o[ix]]
        corr = R(F(0))
        out[ix + (0,)] = row[0]
        for i in range(1, len(row)):
            dd = row[i] - row[i - 1]
            # integer winding k with dd - per*k in (-half, half]
            q = A._stack_list([dd])
            from .core import _poly_def

            pd = _poly_def(dd)
            perc = per.c

            def mkf(v, pd=pd):
                d = pd.add(v, -perc)
                h = Poly({(): perc / 2})
                return f_and(f_sign(d.add(h, 1), POS), f_sign(d.add(h, -1), NEG | ZER)), (
                    lambda m: F(math.ceil((pd.ev(m) - perc / 2) / perc))
                )

            v = e.define(("wind", pd.key), "wind", mkf, isint=True)
            corr = corr - per * R.var(v, True)
            out[ix + (i,)] = row[i] + corr
    return mk(out, F64)


class NormShim:
    def ppf(self, q, *a, **k):
        from scipy import stats

        q = R.of(q)
        if q.is_const():
            return R.of(float(stats.norm.ppf(float(q.c))))
        return r_ufun("norm_ppf", [q])

    def __getattr__(self, n):
        raise Unsupported("stats.norm." + n)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        r = getattr(math, n)
        if callable(r):

            def g(*a):
                if has_sym(a):
                    a = tuple(R.of(x.item() if isinstance(x, np.ndarray) else x) if has_sym(x) else x for x in a)
                    if all((x.is_const() if isinstance(x, R) else True) and not getattr(x, "sp", None) for x in a):
                        a2 = [float(x) if isinstance(x, R) else x for x in a]
                        v = r(*a2)
                        return R.of(v) if isinstance(v, float) else v
                    if n == "sqrt":
                        if bool(a[0] < 0):
                            raise ValueError("math domain error")
                        return A.r_sqrt(a[0])
                    if n in ("log", "log2", "log10"):
                        if bool(a[0] <= 0):
                            raise ValueError("math domain error")
                        return core.r_log(a[0]) if n == "log" and len(a) == 1 else r_ufun(n, a)
                    if n == "exp":
                        return core.r_exp(a[0])
                    if n == "fabs":
                        return abs(a[0])
                    if n in ("floor", "ceil"):
                        return (A.s_floor if n == "floor" else A.s_ceil)(a[0])
                    if n == "isnan":
                        return a[0].sp == "nan"
                    if n == "isfinite":
                        return a[0].sp is None
                    raise Unsupported("math." + n)
                return r(*a)

            return g
        return r


# ----------------------------------------------------------------------------
# multiprocessing model


def _chunks(n, procs):
    c, extra = divmod(n, procs * 4)
    if extra:
        c += 1
    return max(c, 1)


def _perm(e, n):
    """arbitrary completion order"""
    left = list(range(n))
    out = []
    while left:
        k = e.choose(len(left)) if len(left) > 1 else 0
        out.append(left.pop(k))
    return out


class SymPool:
    """Process pool contract: the callable (and what it is bound to) is copied
    once per submitted chunk, chunks run in isolation, results are copied back.
    imap_unordered yields in any completion order."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count()
        processes = processes.__index__() if isinstance(processes, R) else processes
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = processes
        if initializer is not None:
            raise Unsupported("pool initializer")
        self.closed = False
        e = eng()
        e.pools = getattr(e, "pools", 0) + 1

    def _ck(self):
        if self.closed:
            raise ValueError("Pool not running")

    def _run(self, func, args_list, chunksize, star=False):
        self._ck()
        e = eng()
        res = []
        for i in range(0, len(args_list), chunksize):
            f, chunk = copy.deepcopy((func, args_list[i : i + chunksize]))
            g = getattr(e, "global_rng", None)
            gs = g.get_state() if g is not None else None
            rs = [f(*a) if star else f(a) for a in chunk]
            if g is not None:
                g.set_state(gs)
            res.append(copy.deepcopy(rs))
        return res

    def map(self, func, iterable, chunksize=None):
        it = list(iterable)
        r = self._run(func, it, chunksize or _chunks(len(it), self.n))
        return [x for c in r for x in c]

    def starmap(self, func, iterable, chunksize=None):
        it = list(iterable)
        r = self._run(func, it, chunksize or _chunks(len(it), self.n), star=True)
        return [x for c in r for x in c]

    def imap(self, func, iterable, chunksize=1):
        it = list(iterable)
        r = self._run(func, it, chunksize)
        return iter([x for c in r for x in c])

    def imap_unordered(self, func, iterable, chunksize=1):
        it = list(iterable)
        r = self._run(func, it, chunksize)
        e = eng()
        if getattr(e, "schedule", "any") == "fifo":
            order = range(len(r))
        else:
            order = _perm(e, len(r))
        e.sched_used = True
        return iter([x for k in order for x in r[k]])

    def apply(self, func, args=(), kwds={}):
        f, a, k = copy.deepcopy((func, args, kwds))
        return f(*a, **k)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)
        return _Res(r)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = self.map(func, iterable, chunksize)
        if callback:
            callback(r)
        return _Res(r)

    def starmap_async(self, func, iterable, chunksize=None, **k):
        return _Res(self.starmap(func, iterable, chunksize))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        self._ck()
        return self

    def __exit__(self, *a):
        self.closed = True

    def __deepcopy__(self, memo):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SymThreadPool(SymPool):
    def _run(self, func, args_list, chunksize, star=False):
        self._ck()
        return [[func(*a) if star else func(a) for a in args_list[i : i + chunksize]] for i in range(0, len(args_list), chunksize)]


class _Res:
    def __init__(self, r):
        self.r = r

    def get(self, timeout=None):
        return self.r

    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class SymExecutor(SymPool):
    def __init__(self, max_workers=None, **k):
        super().__init__(max_workers)

    def map(self, func, *its, timeout=None, chunksize=1):
        it = list(zip(*its))
        r = self._run(func, it, chunksize, star=True)
        return iter([x for c in r for x in c])

    def submit(self, func, *a, **k):
        return _Res(self.apply(func, a, k))

    def shutdown(self, wait=True, **k):
        self.closed = True


class MPShim(types.ModuleType):
    Pool = SymPool

    def __init__(self):
        super().__init__("multiprocessing")
        self.__path__ = []
        self.pool = types.SimpleNamespace(ThreadPool=SymThreadPool, Pool=SymPool)

    def get_context(self, m=None):
        return self

    def cpu_count(self):
        return os.cpu_count()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("multiprocessing." + n)


def sym_tqdm(x=None, *a, **k):
    return x


# ----------------------------------------------------------------------------
# plotting recorder


class RecAx:
    def __init__(self):
        self.plots, self.title, self.ylabel = [], "", ""

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) == 1:
            a = [range(len(a[0])), a[0]]
        if len(a) != 2:
            raise Unsupported("plot with %d arguments" % len(a))
        x, y = a
        if len(x) != len(y):
            raise ValueError("x and y must have same first dimension, but have shapes %s and %s" % ((len(x),), (len(y),)))
        y = list(y)
        x = list(x)
        self.plots.append((x, y))

    def set_title(self, t, **k):
        self.title = str(t)

    def set_ylabel(self, t, **k):
        self.ylabel = str(t)

    def set(self, **k):
        if "title" in k:
            self.set_title(k["title"])
        if "ylabel" in k:
            self.set_ylabel(k["ylabel"])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class RecFig:
    def __init__(self, axes=()):
        self.axes = list(axes)

    def add_subplot(self, *a, **k):
        a = tuple(int(c) for c in str(a[0])) if len(a) == 1 else a
        if a and a[-1] != len(self.axes) + 1:
            raise Unsupported("subplot order")
        self.axes.append(RecAx())
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        nrows = nrows.__index__() if isinstance(nrows, R) else int(nrows)
        if nrows < 1:
            raise ValueError("Number of rows must be a positive integer, not %r" % nrows)
        axs = [RecAx() for _ in range(nrows * ncols)]
        self.axes += axs
        o = np.empty(len(axs), dtype=object)
        for i, x in enumerate(axs):
            o[i] = x
        if not squeeze:
            return o.reshape(nrows, ncols)
        return axs[0] if len(axs) == 1 else o

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class PylabShim(types.ModuleType):
    def __init__(self):
        super().__init__("pylab")
        self.figs = []

    def figure(self, *a, **k):
        self.figs.append(RecFig())
        return self.figs[-1]

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def gca(self):
        f = self.gcf()
        return f.axes[-1] if f.axes else f.add_subplot()

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        fig = self.figure()
        try:
            return fig, fig.subplots(nrows, ncols, squeeze=squeeze)
        except ValueError:
            self.figs.pop()
            raise

    def subplot(self, *a, **k):
        return self.gcf().add_subplot(*a)

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def title(self, t, **k):
        return self.gca().set_title(t)

    def ylabel(self, t, **k):
        return self.gca().set_ylabel(t)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


# ----------------------------------------------------------------------------
# numba


class NbSig:
    def __init__(self, args):
        self.args = args


class NbT:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, ix):
        nd = len(ix) if isinstance(ix, tuple) else 1
        return NbT("arr%d:%s" % (nd, self.name))

    def __call__(self, *args):
        return NbSig(args)


class NbTypes(types.ModuleType):
    float64 = NbT("float64")
    int64 = NbT("int64")
    unicode_type = NbT("str")
    boolean = NbT("bool")

    def __init__(self):
        super().__init__("numba.types")

    def UniTuple(self, t, n):
        return NbT("tuple")

    def Tuple(self, ts):
        return NbT("tuple")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return NbT(n)


def _nb_coerce(t, v):
    n = t.name
    if n == "int64" and v is not None:
        if isinstance(v, R):
            return v if v.isint else A.r_trunc(v)
        return int(v)
    if n == "float64":
        return R.of(v) if has_sym(v) else builtins.float(v)
    if n.startswith("arr") and isinstance(v, np.ndarray):
        if v.dtype != np.dtype(n.split(":")[1]):
            raise TypeError("No matching definition for argument type(s) array(%s)" % v.dtype)
    return v


class NbShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.__path__ = []
        self.types = NbTypes()
        self.float64, self.int64 = self.types.float64, self.types.int64
        self.typed = types.SimpleNamespace(Dict=types.SimpleNamespace(empty=lambda key_type=None, value_type=None: {}), List=list)

    def optional(self, t):
        return NbT("optional:" + getattr(t, "name", ""))

    def typeof(self, x):
        return NbT("dict")

    def jit(self, *a, **k):
        if a and callable(a[0]) and not isinstance(a[0], (NbSig, NbT)):
            return a[0]
        sig = a[0] if a and isinstance(a[0], NbSig) else None

        def deco(f):
            if sig is None:
                return f
            import functools

            @functools.wraps(f)
            def g(*args, **kw):
                args = tuple(_nb_coerce(t, v) for t, v in zip(sig.args, args)) + args[len(sig.args) :]
                return f(*args, **kw)

            return g

        return deco

    njit = jit

    def prange(self, *a):
        return range(*a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numba." + n)


# ----------------------------------------------------------------------------
# 2d helpers


def sym_maximum_filter(image, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if mode != "reflect" or origin != 0 or k:
        raise Unsupported("maximum_filter options")
    if footprint is None:
        footprint = np.ones((size, size) if isinstance(size, int) else size, dtype=bool)
    fp = np.asarray(footprint, dtype=bool)
    o = toobj(arr(image))
    n, m = o.shape
    h0, h1 = fp.shape[0] // 2, fp.shape[1] // 2

    def refl(i, n):
        while i < 0 or i >= n:
            i = -1 - i if i < 0 else 2 * n - 1 - i
        return i

    out = np.empty(o.shape, dtype=object)
    for i in range(n):
        for j in range(m):
            xs = []
            for a in range(fp.shape[0]):
                for b in range(fp.shape[1]):
                    if fp[a, b]:
                        xs.append(o[refl(i + a - h0, n), refl(j + b - h1, m)])
            out[i, j] = r_max(xs)
    return wrap(out, tag_of(arr(image)), False)


def sym_binary_erosion(image, structure=None, border_value=0, **k):
    if k:
        raise Unsupported("binary_erosion options")
    st = np.asarray(structure, dtype=bool)
    o = toobj(arr(image))
    n, m = o.shape
    out = np.empty(o.shape, dtype=object)
    for i in range(n):
        for j in range(m):
            fs = []
            for a in range(st.shape[0]):
                for b in range(st.shape[1]):
                    if st[a, b]:
                        y, x = i + a - st.shape[0] // 2, j + b - st.shape[1] // 2
                        if 0 <= y < n and 0 <= x < m:
                            fs.append(bf(o[y, x]))
                        else:
                            fs.append(bf(bool(border_value)))
            out[i, j] = B.mk(f_and(*fs))
    return wrap(out, np.dtype(bool), False)


class SymSurface:
    """contract stub for 2-d scattered-data fits: arbitrary surface, a function of its data"""

    def __init__(self, *a, **k):
        self.data = []
        for x in a:
            if isinstance(x, np.ndarray):
                self.data += [R.of(v) for v in toobj(arr(x)).reshape(-1)]
        self.n = len(toobj(arr(a[0])).reshape(-1)) if a else 0


class SymSBS(SymSurface):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        if self.n < (k.get("kx", 3) + 1) * (k.get("ky", 3) + 1):
            raise ValueError("The length of x, y and z should be at least (kx+1) * (ky+1)")

    def __call__(self, xi, yi, **k):
        X = [R.of(v) for v in toobj(arr(xi)).reshape(-1)]
        Y = [R.of(v) for v in toobj(arr(yi)).reshape(-1)]
        return wrap(_stack_list([[r_ufun("sbs", self.data + [x, y]) for y in Y] for x in X]), F64, False)


class SymRbf(SymSurface):
    def __call__(self, xi, yi, **k):
        X, Y = toobj(arr(xi)), toobj(arr(yi))
        out = np.empty(X.shape, dtype=object)
        for i in np.ndindex(X.shape):
            out[i] = r_ufun("rbf", self.data + [X[i], Y[i]])
        return wrap(out, F64, False)


def sym_reconstruction(seed, mask, method="dilation", **k):
    if method != "dilation" or k:
        raise Unsupported("reconstruction options")
    s, m = toobj(arr(seed)), toobj(arr(mask))
    n, w = s.shape
    cur = np.empty(s.shape, dtype=object)
    for i in np.ndindex(s.shape):
        cur[i] = r_min([s[i], m[i]])
    for _ in range(n * w):
        nxt = np.empty(s.shape, dtype=object)
        for i in range(n):
            for j in range(w):
                nb = [cur[a, b] for a in range(max(0, i - 1), min(n, i + 2)) for b in range(max(0, j - 1), min(w, j + 2))]
                nxt[i, j] = r_min([r_max(nb), m[i, j]])
        if all(R.of(nxt[i]).key() == R.of(cur[i]).key() for i in np.ndindex(s.shape)):
            break
        cur = nxt
    return wrap(cur, F64, False)


# ----------------------------------------------------------------------------
# builtins


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, R) and not x.isint)

    def __call__(cls, x=0.0):
        if isinstance(x, R):
            return R(x.c, x.nf, x.df, x.sp, False)
        if isinstance(x, B):
            r = x.num()
            return R(r.c, r.nf, r.df, r.sp, False)
        if isinstance(x, SymArray):
            if x.size == 1:
                return toobj(x).reshape(-1)[0]
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return builtins.float(x)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(metaclass=_FloatMeta):
    __symx_real__ = builtins.float


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, R) and x.isint)

    def __call__(cls, x=0, *a):
        if isinstance(x, R):
            if x.sp:
                return builtins.int(x.value())
            if x.is_const():
                return builtins.int(x.c)
            return x if x.isint else A.r_trunc(x)
        if isinstance(x, B):
            return x.num()
        if isinstance(x, SymArray):
            return cls(toobj(x).reshape(-1)[0])
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class SInt(metaclass=_IntMeta):
    __symx_real__ = builtins.int


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, B))

    def __call__(cls, x=False):
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is builtins.bool or o is cls

    def __hash__(cls):
        return hash(builtins.bool)


class SBoolT(metaclass=_BoolMeta):
    __symx_real__ = builtins.bool


def _mm(real, red):
    def f(*a, **k):
        if k.get("key") is None:
            items = None
            if len(a) == 1:
                if isinstance(a[0], SymArray):
                    if a[0].ndim == 1:
                        items = list(a[0])
                elif isinstance(a[0], (list, tuple)) and has_sym(a[0]):
                    items = list(a[0])
            elif has_sym(a):
                items = list(a)
            if items is not None and not any(isinstance(x, np.ndarray) for x in items):
                if not items:
                    if "default" in k:
                        return k["default"]
                    raise ValueError("max() arg is an empty sequence")
                return red(items)
        return real(*a, **k)

    return f


def s_sum(xs, start=0):
    if isinstance(xs, SymArray) and xs.ndim == 1:
        xs = list(xs)
    r = start
    for x in xs:
        r = r + x
    return r


def s_len(x):
    if isinstance(x, A.Lazy) or hasattr(type(x), "symlen"):
        return x.symlen()
    return builtins.len(x)


def s_isinstance(x, t):
    if isinstance(x, A.Lazy):
        x = x.force()
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(c, tuple):
            if s_isinstance(x, c):
                return True
        elif c in (np.floating, np.float64) and isinstance(x, R) and not x.isint:
            return True
        elif c is np.integer and isinstance(x, R) and x.isint:
            return True
        elif builtins.isinstance(x, c):
            return True
    return False


# ----------------------------------------------------------------------------
# loader


_code_cache = {}


class Env:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.rng = RandomShim()
        self.np = NumpyShim(self.rng)
        self.plt = PylabShim()
        self.nb = NbShim()
        self.mp = MPShim()
        self.math = MathShim()
        self.files = {}
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["float"], b["int"], b["bool"] = SFloat, SInt, SBoolT
        b["max"], b["min"] = _mm(builtins.max, r_max), _mm(builtins.min, r_min)
        b["sum"] = s_sum
        b["len"] = s_len
        b["isinstance"] = s_isinstance
        b["print"] = lambda *a, **k: None
        b["open"] = self._noopen
        self.builtins = b
        ns = types.SimpleNamespace
        self.shims = {
            "numpy": self.np,
            "numpy.random": self.rng,
            "numpy.linalg": self.np.linalg,
            "math": self.math,
            "multiprocessing": self.mp,
            "multiprocessing.pool": self.mp.pool,
            "concurrent.futures": ns(ProcessPoolExecutor=SymExecutor, ThreadPoolExecutor=SymThreadPool),
            "tqdm": ns(tqdm=sym_tqdm, trange=range),
            "tqdm.auto": ns(tqdm=sym_tqdm),
            "pylab": self.plt,
            "matplotlib.pyplot": self.plt,
            "numba": self.nb,
            "numba.types": self.nb.types,
            "scipy.interpolate": ns(
                interp1d=SymInterp1d, CubicSpline=SymCubicSpline, Akima1DInterpolator=SymAkima, PchipInterpolator=SymPchip,
                CubicHermiteSpline=SymHermite, SmoothBivariateSpline=SymSBS, Rbf=SymRbf,
            ),
            "scipy.signal": ns(find_peaks=sym_find_peaks, hilbert=sym_hilbert),
            "scipy.stats": ns(norm=NormShim()),
            "scipy.ndimage": ns(maximum_filter=sym_maximum_filter, binary_erosion=sym_binary_erosion, generate_binary_structure=_gbs),
            "scipy.ndimage.filters": ns(maximum_filter=sym_maximum_filter),
            "scipy.ndimage.morphology": ns(binary_erosion=sym_binary_erosion, generate_binary_structure=_gbs),
            "skimage.morphology": ns(reconstruction=sym_reconstruction),
        }
        sp = ns(interpolate=self.shims["scipy.interpolate"], signal=self.shims["scipy.signal"], stats=self.shims["scipy.stats"], ndimage=self.shims["scipy.ndimage"])
        self.shims["scipy"] = sp

    def _noopen(self, *a, **k):
        raise Unsupported("file access by analysed code")

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "").rpartition(".")[0]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name == "PyEMD" or name.startswith("PyEMD."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except FileNotFoundError:
                            pass
                return m
            return self.mods["PyEMD"] if "PyEMD" in self.mods else m
        if name in self.shims:
            if not fromlist and "." in name:
                return self.shims.get(name.split(".")[0]) or self.shims[name]
            return self.shims[name]
        top = name.split(".")[0]
        if top in ("scipy", "numba", "skimage", "matplotlib", "multiprocessing"):
            raise Unsupported("import " + name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")
        p = os.path.join(self.repo, *rel)
        if os.path.isdir(p):
            path, pkg = os.path.join(p, "__init__.py"), name
        else:
            path, pkg = p + ".py", name.rpartition(".")[0]
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        if "." in name:
            self.load(name.rpartition(".")[0])
        if name in self.mods:
            return self.mods[name]
        cached = _code_cache.get(path)
        if cached is None:
            src = open(path, encoding="utf-8").read()
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cached = _code_cache[path] = (compile(src, path, "exec"), hashlib.sha256(src.encode()).hexdigest())
        code, self.files[path] = cached
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = pkg
        if os.path.isdir(p):
            m.__path__ = [p]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if not hasattr(self.mods[par], leaf) or name.count(".") and isinstance(getattr(self.mods[par], leaf), types.ModuleType):
                setattr(self.mods[par], leaf, m)
        return m


def _gbs(rank, conn):
    from scipy.ndimage import generate_binary_structure

    return generate_binary_structure(rank, conn)
