"""Compact finite-difference filter, derivative and tridiagonal solver."""
from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.compact"], budget=dict(quick=45, thorough=150),
    bounds=["arbitrary samples: filter 6-10 (thorough -16) samples with any alpha in (-1/2,1/2) up to 9 (11) samples, alpha from a list beyond; derivative 7-10 (-16) samples, any step; solver: any diagonally dominant system of 1-3 rows, listed matrices of 4-7 rows with any right-hand side; lengths 16-129 (thorough -257) on one-parameter families"],
    outside=["fewer than six samples (filter) or seven (derivative: with six the scheme's matrix is singular)", "rounding"],
    stubs=[],
)
ALPHA = [F(0), F(1, 4), F(-1, 4), F(49, 100), F(-49, 100), F(3, 8)]
TOL = F(1, 10**6)


def alpha_of(ctx, sym):
    return ctx.real("alpha", F(-49, 100), F(49, 100)) if sym else float(ctx.pick(ALPHA, "alpha"))


def ref_filter(ctx, name, x, y, al):
    """defining equations of the filter"""
    n = len(x)
    ctx.prove("one value per sample", len(y) == n)
    d = x[0] - 4 * x[1] + 6 * x[2] - 4 * x[3] + x[4]
    e = x[-1] - 4 * x[-2] + 6 * x[-3] - 4 * x[-4] + x[-5]
    lhs, rhs = [], []
    for k in range(3):
        s = -1 if k % 2 == 0 else 1
        lhs += [y[k], y[n - 1 - k]]
        rhs += [x[k] + s * d / 16, x[n - 1 - k] + s * e / 16]
    ctx.prove_close(name + ": ends corrected by the fourth difference", lhs, rhs, TOL)
    lhs, rhs = [], []
    for i in range(3, n - 3):
        d6 = x[i - 3] + x[i + 3] - 6 * (x[i - 2] + x[i + 2]) + 15 * (x[i - 1] + x[i + 1]) - 20 * x[i]
        lhs.append(al * y[i - 1] + y[i] + al * y[i + 1])
        rhs.append(al * x[i - 1] + x[i] + al * x[i + 1] + (1 - 2 * al) * d6 / 64)
    if lhs:
        ctx.prove_close(name + ": interior satisfies the sixth-order compact filter", lhs, rhs, TOL)


def filt(ctx, ns, sym):
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    al = alpha_of(ctx, sym)
    X = ctx.reals("x", n, -4, 4)
    x = vals(X)
    y = vals(m.filt6(X, al))
    ref_filter(ctx, "filter", x, y, al)
    ctx.prove_close("input unchanged", vals(X), x, 0)
    z = vals(m.filt6(X[::-1], al))
    ctx.prove_close("filtering commutes with time reversal", z[::-1], y, TOL)


def poly(ctx, n, deg, lim=2):
    c = ctx.reals("c", deg + 1, -lim, lim)
    xs = [F(i, 2) - F(n - 1, 4) for i in range(n)]
    return c, [sum((c[k] * u**k for k in range(1, deg + 1)), c[0]) for u in xs], xs


def keep(ctx, ns):
    """polynomials up to cubic pass; the sawtooth is removed"""
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    al = float(ctx.pick(ALPHA, "alpha"))
    if ctx.pick((True, False), "polynomial"):
        c, p, xs = poly(ctx, n, 3)
        ctx.prove_close("cubics pass the filter unchanged", vals(m.filt6(ctx.arr(p), al)), p, TOL)
    else:
        a = ctx.real("a", -4, 4)
        w = [a if i % 2 == 0 else -a for i in range(n)]
        ctx.prove_close("the sawtooth is removed", vals(m.filt6(ctx.arr(w), al)), [0] * n, F(1, 10**5))


def nofilter(ctx, ns):
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    X = ctx.reals("x", n, -4, 4)
    y = vals(m.filt6(X, 0.5))
    ref_filter(ctx, "alpha=1/2", vals(X), y, F(1, 2))


def deriv(ctx, ns):
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    h = float(ctx.pick([F(1), F(1, 2), F(4)], "h"))
    X = ctx.reals("x", n, -4, 4)
    x = vals(X)
    y = vals(m.pade6(X, h))
    ctx.prove("one value per sample", len(y) == n)
    lhs = [h * (y[i - 1] / 3 + y[i] + y[i + 1] / 3) for i in range(2, n - 2)]
    rhs = [F(7, 9) * (x[i + 1] - x[i - 1]) + F(1, 36) * (x[i + 2] - x[i - 2]) for i in range(2, n - 2)]
    if lhs:
        ctx.prove_close("interior satisfies the sixth-order compact derivative", lhs, rhs, F(1, 10**5))
    ctx.prove_close("input unchanged", vals(X), x, 0)
    z = vals(m.pade6(X[::-1], h))
    ctx.prove_close("derivative of the reversed signal is the negated reversed derivative", [-v for v in z[::-1]], y, F(1, 10**5))


def dpoly(ctx, ns, sym=True, deg=6):
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    c, p, xs = poly(ctx, n, deg, 1)
    h = ctx.real("h", F(1, 8), 8) if sym else float(ctx.pick([F(1, 2), F(3)], "h"))
    # samples at spacing 1/2 of the polynomial; with step h the derivative scales by (1/2)/h
    want = [sum((k * c[k] * u ** (k - 1) for k in range(2, deg + 1)), c[1]) for u in xs]
    got = vals(m.pade6(ctx.arr(p), h))
    big = max(1, max(float(abs(u)) for u in xs) ** (deg - 1))
    ctx.prove_close("derivative of polynomials is exact for every step", [2 * h * g for g in got], want, F(big) / 10**6)


def tdma(ctx, n):
    m = ctx.mod("PyEMD.compact")
    a, c, d = ctx.reals("a", n, -1, 1), ctx.reals("c", n, -1, 1), ctx.reals("d", n, -4, 4)
    b = ctx.reals("b", n, F(5, 2), 4)
    keepv = [vals(v) for v in (a, b, c, d)]
    x = vals(m.TDMAsolver(a, b, c, d))
    res = [(a[i] * x[i - 1] if i else 0) + b[i] * x[i] + (c[i] * x[i + 1] if i < n - 1 else 0) for i in range(n)]
    ctx.prove_close("solution satisfies the tridiagonal system", res, vals(d), TOL)
    for u, v in zip((a, b, c, d), keepv):
        ctx.prove_close("inputs unchanged", vals(u), v, 0)


MATS = [([0, 1, -1, 2, 1, 1, -2], [3, 4, -3, 5, 3, -4, 4], [1, -2, 1, 1, -1, 2, 0]), ([9, 2, 2, 2, 2, 2, 2], [4, 5, 4, 5, 4, 5, 4], [-1, 1, -1, 1, -1, 1, 7])]


def tdma_rhs(ctx, ns):
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    a, b, c = [[F(v) for v in r[:n]] for r in ctx.pick(MATS, "matrix")]
    d = ctx.reals("d", n, -4, 4)
    x = vals(m.TDMAsolver(ctx.arr(a), ctx.arr(b), ctx.arr(c), d))
    res = [(a[i] * x[i - 1] if i else 0) + b[i] * x[i] + (c[i] * x[i + 1] if i < n - 1 else 0) for i in range(n)]
    ctx.prove_close("solution satisfies the tridiagonal system", res, vals(d), TOL)


def long(ctx, ns):
    """longer vectors on a one-parameter family"""
    m = ctx.mod("PyEMD.compact")
    n = ctx.pick(ns, "n")
    X = ray(ctx, n)
    x = vals(X)
    al = float(ctx.pick(ALPHA[:4], "alpha"))
    ref_filter(ctx, "filter", x, vals(m.filt6(X, al)), al)
    y = vals(m.pade6(X, 0.5))
    rhs = [F(7, 9) * (x[i + 1] - x[i - 1]) + F(1, 36) * (x[i + 2] - x[i - 2]) for i in range(2, n - 2)]
    ctx.prove_close("interior satisfies the sixth-order compact derivative", [(y[i - 1] / 3 + y[i] + y[i + 1] / 3) / 2 for i in range(2, n - 2)], rhs, F(1, 10**5))
    r = vals(m.pade6(X[::-1], 0.5))
    ctx.prove_close("derivative of the reversed signal is the negated reversed derivative", [-v for v in r[::-1]], y, F(1, 10**5))


def tasks(tier):
    q = tier == "quick"
    return [
        Task("filter", filt, dict(ns=[6, 7, 8, 9, 10] if q else [6, 7, 8, 9, 10, 12, 16], sym=False)),
        Task("filter-any-alpha", filt, dict(ns=[6, 7, 8, 9] if q else [6, 7, 8, 9, 10, 11], sym=True)),
        Task("keeps-cubics", keep, dict(ns=[6, 7, 8, 11] if q else [6, 7, 8, 9, 11, 20])),
        Task("no-filter", nofilter, dict(ns=[6, 7, 9])),
        Task("derivative", deriv, dict(ns=[7, 8, 10] if q else [7, 8, 9, 10, 12, 16])),
        Task("derivative-polynomials", dpoly, dict(ns=[7, 8, 9] if q else [7, 8, 9, 10, 12], sym=False)),
        Task("derivative-any-step", dpoly, dict(ns=[7], sym=True, deg=5)),
        Task("solver-1", tdma, dict(n=1)),
        Task("solver-2", tdma, dict(n=2)),
        Task("solver-3", tdma, dict(n=3)),
        Task("solver-rhs", tdma_rhs, dict(ns=[4, 5, 6, 7])),
        Task("long", long, dict(ns=[16, 33, 64, 65, 129] if q else [16, 33, 64, 65, 100, 128, 129, 257])),
    ]
