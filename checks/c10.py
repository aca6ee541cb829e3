"""Envelopes: the requested interpolant through the extended extrema, touching every extremum."""
from .common import *

META = dict(
    mods=EMD_MODS + ["PyEMD.splines"], budget=dict(quick=60, thorough=400),
    bounds=["every spline kind; signals of 5-7 alternating samples; 9-sample segments"],
    outside=["internals of the scipy interpolators (their defining equations are assumed; akima is an uninterpreted interpolant)"],
    stubs=["scipy interpolators encoded by their defining equations (linear, not-a-knot cubic, quadratic, hermite, pchip bounds); Akima uninterpreted away from its knots"],
)


def oracle(ctx, kind, X, Y, t):
    I = ctx.mod("scipy.interpolate")
    np = ctx.np
    if kind == "cubic":
        if len(X) > 3:
            return I.CubicSpline(X, Y)(t)
        return None
    if kind == "akima":
        return I.Akima1DInterpolator(X, Y)(t)
    if kind == "pchip":
        return I.PchipInterpolator(X, Y)(t)
    if kind == "cubic_hermite":
        return I.CubicHermiteSpline(X, Y, np.gradient(Y, X))(t)
    return I.interp1d(X, Y, kind=kind)(t)


def run(ctx, n, mode, kinds, nbsyms=(2,), upper=False):
    kind = ctx.pick(kinds, "kind")
    nbsym = ctx.pick(nbsyms, "nbsym")
    emd = emd_cls(ctx)(nbsym=nbsym, spline_kind=kind.upper() if upper else kind)
    S = ray(ctx, n, 1) if mode == "ray" else long_signal(ctx, n, (0, n // 2)) if mode == "long" else ctx.reals("S", n, 1, 8)
    if mode == "zig":
        zigzag(ctx, S)
    T = ctx.arr([F(i) for i in range(n)])
    ext = ref_extrema(ctx, vals(S))
    if len(ext) < 3:
        ctx.abort("fewer than three extrema")
    up, low, mx, mn = emd.extract_max_min_spline(T, S)
    for what, env, M in (("max", up, mx), ("min", low, mn)):
        ctx.prove("one envelope value per sample", len(env) == n, "%s %d" % (what, len(env)))
        want = oracle(ctx, kind, M[0], M[1], T)
        if want is not None:
            ctx.prove_close("the envelope is the interpolant of the requested kind", vals(env), vals(want))
        for a, b, k in ext:
            if k == what:
                i = (a + b) // 2 if (a + b) % 2 == 0 else None
                if i is not None:
                    ctx.prove_close("the envelope touches every extremum", env[i], S[i])
    ctx.observe("up", up)


def unknown(ctx):
    emd = emd_cls(ctx)(spline_kind=ctx.pick(["nonsense", "cubicc", ""], "kind"))
    S = ctx.arr([0.0, 1, 0, 1, 0, 1, 0])
    r = ctx.call(emd.emd, S, allowed=(ValueError,))
    ctx.prove("an unknown spline kind is refused", r[0] == "exc")


def detection(ctx):
    r = ctx.call(emd_cls(ctx), extrema_detection=ctx.pick(["nonsense", "Simple", None], "detection"), allowed=(ValueError, AssertionError))
    ctx.prove("an unknown detection method is refused", r[0] == "exc")


def three(ctx, n):
    """three knots: the natural cubic spline (zero second derivative at both ends, C2 in the middle)"""
    sp = ctx.mod("PyEMD.splines")
    x0, x2 = F(0), F(n - 1)
    d = ctx.pick([F(1), F(n - 1) / 2, F(n - 2)], "middle knot")
    X = ctx.arr([x0, d, x2])
    Y = ctx.reals("y", 3, -4, 4)
    T = ctx.arr([F(i) for i in range(n)])
    t, q = sp.cubic_spline_3pts(X, Y, T)
    ctx.prove("one value per time in the range", len(q) == n and len(t) == n, "%d %d" % (len(q), len(t)))
    # closed form: second derivative m at the middle knot
    h0, h1 = d - x0, x2 - d
    if not ctx.symbolic:
        h0, h1, d, x0, x2 = float(h0), float(h1), float(d), float(x0), float(x2)
    y0, y1, y2 = vals(Y)
    m = 3 * ((y2 - y1) / h1 - (y1 - y0) / h0) / (h0 + h1)
    want = []
    for i in range(n):
        x = F(i) if ctx.symbolic else float(i)
        if x <= d:
            w = m * (x - x0) * (x - x0) * (x - x0) / (6 * h0) + y0 * (d - x) / h0 + (y1 / h0 - m * h0 / 6) * (x - x0)
        else:
            w = m * (x2 - x) * (x2 - x) * (x2 - x) / (6 * h1) + y2 * (x - d) / h1 + (y1 / h1 - m * h1 / 6) * (x2 - x)
        want.append(w)
    ctx.prove_close("natural cubic spline through three points", vals(q), want)


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("unknown-kind", unknown), Task("unknown-detection", detection),
        Task("three-points", three, dict(n=5)), Task("three-points-n8", three, dict(n=8)),
        Task("zig-n5", run, dict(n=5, mode="zig", kinds=KINDS)),
        Task("zig-n8", run, dict(n=8, mode="zig", kinds=KINDS)),
        Task("upper-case", run, dict(n=5, mode="zig", kinds=KINDS, upper=True)),
        Task("nbsym-n6", run, dict(n=6, mode="zig", kinds=["cubic", "linear", "quadratic"], nbsyms=[1, 3])),
        Task("ray-n12", run, dict(n=12, mode="ray", kinds=KINDS)),
        Task("long-n30", run, dict(n=30, mode="long", kinds=KINDS)),
        Task("long-n100", run, dict(n=100, mode="long", kinds=["cubic", "linear"])),
        Task("free-n6", run, dict(n=6, mode="free", kinds=["cubic", "linear"])),
    ]
    if not q:
        t += [Task("free-n7", run, dict(n=7, mode="free", kinds=KINDS), weight=2), Task("zig-n10", run, dict(n=10, mode="zig", kinds=KINDS, nbsyms=[1, 2, 3]), weight=2)]
    return t
