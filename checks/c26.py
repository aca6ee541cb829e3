"""JitEMD: the compiled EMD gives the same components as EMD."""
from .common import *

JIT = "PyEMD.experimental.jitemd"
META = dict(
    mods=["PyEMD", "PyEMD.EMD", "PyEMD.experimental", JIT], budget=dict(quick=90, thorough=300),
    bounds=["signals of 2-5 free samples, alternating signals of 6-8, one-parameter families of 7-10 (thorough -14) samples, flat runs; all spline kinds; uniform axes; fixed and default stopping with at most 3 siftings per mode"],
    outside=["what numba's compiler makes of the source beyond the replayed samples (validation and counterexamples run compiled, at optimisation level 0)", "non-uniform axes"],
    stubs=["numba decorators replaced by the plain function with the declared integer/float conversions of arguments"],
)
JK = ["cubic", "akima", "linear", "slinear", "quadratic"]
TOL = F(1, 10**6)


def warm():
    """compile once, before the workers fork"""
    import numpy as np

    from PyEMD.experimental import jitemd

    S = np.array([0, 3, 1, 4, 0, 2, 1, 5, 0.0])
    for det in ("simple", "parabol"):
        jitemd.JitEMD(extrema_detection=det).emd(S, np.arange(9.0))


META["warmup"] = [warm]


def jit(ctx, cfg, kind="cubic", det="simple"):
    m = ctx.mod(JIT)
    c = m.default_emd_config.copy()
    for k, v in cfg.items():
        c[k] = float(v)
    return m.JitEMD(c, spline_kind=kind, extrema_detection=det)


def signal(ctx, kind, n):
    if kind == "free":
        return ctx.reals("x", n, -4, 4)
    if kind == "zig":
        S = ctx.reals("x", n, -4, 4)
        zigzag(ctx, S)
        return S
    if kind == "plateau":
        lens = ctx.pick([[1, 2, 1, 1], [2, 1, 2, 1], [1, 1, 2, 2], [1, 3, 2, 1], [1, 1, 1, 2, 1]], "runs")
        x = ctx.reals("x", len(lens), -4, 4)
        return ctx.arr([x[k] for k, l in enumerate(lens) for _ in range(l)])
    if kind == "reset":  # siftings that conform, then do not, then do again
        return ray(ctx, 7, bases="reset", hi=F(1, 16))
    if kind == "riding":
        return ray(ctx, n, bases="riding")
    return ray(ctx, n, params=2 if kind == "patch" else 1)


def equal(ctx, sig, ns, cfgs, kinds=("cubic",), dets=("simple",), max_imfs=(-1,), axes=((F(0), F(1)),), sifts=0):
    n = ctx.pick(ns, "n")
    cfg, kind, det, mx = ctx.pick(cfgs, "cfg"), ctx.pick(kinds, "kind"), ctx.pick(dets, "detection"), ctx.pick(max_imfs, "max_imf")
    t0, h = ctx.pick(axes, "axis")
    S = signal(ctx, sig, n)
    n = len(S)
    T = ctx.arr([t0 + h * i for i in range(n)])
    keep = vals(S)
    for k in range(1, sifts):  # no ties in the later siftings (rounding would decide them)
        apart(ctx, vals(emd_cls(ctx)(spline_kind=kind, extrema_detection=det, FIXE=k).emd(S, T, 1)[0]))
    j = jit(ctx, cfg, kind, det)
    out = j.emd(S, T, mx)
    e = emd_cls(ctx)(spline_kind=kind, extrema_detection=det, **cfg)
    ref = e.emd(S, T, mx)
    ctx.prove("same number of components as EMD", len(out) == len(ref), "%d instead of %d" % (len(out), len(ref)))
    ctx.prove_close("same components as EMD", [v for r in rows(out) for v in r], [v for r in rows(ref) for v in r], TOL)
    ctx.prove_close("signal unchanged", vals(S), keep, 0)
    if len(out):
        ctx.prove_close("components add up to the signal", sum_rows(ctx, out, n), keep, TOL)
        m, tr = j.get_imfs_and_trend()
        ctx.prove("the trend has one value per sample", tuple(tr.shape) == (n,))
        ctx.prove_close("modes and trend add up to the signal", [v + t for v, t in zip(sum_rows(ctx, m, n), vals(tr))] if len(m) else vals(tr), keep, TOL)
        ctx.prove("all rows but the last are modes", len(m) == len(out) - 1)
        ctx.prove_close("modes come in order", [v for r in rows(m) for v in r], [v for r in rows(out)[:-1] for v in r], TOL)
    ctx.cover("%d rows" % len(out))


def twice(ctx, n):
    """a used instance gives what a fresh one gives; results stay valid"""
    S = ray(ctx, n, bases=[0, 1])
    T = ctx.arr([F(i) for i in range(n)])
    S2 = ctx.arr([v * v for v in range(n)]) if ctx.pick((True, False), "second") else S[::-1] * 0.5
    cfg = dict(FIXE=1)
    a, b = jit(ctx, cfg), jit(ctx, cfg)
    x = a(S, T, 2)
    k = rows(x)
    y = a.emd(S2, T, 2)
    z = b.emd(S2, T, 2)
    ctx.prove("same shape on a used instance", len(y) == len(z))
    ctx.prove_close("a used instance gives what a fresh one gives", [v for r in rows(y) for v in r], [v for r in rows(z) for v in r], TOL)
    ctx.prove_close("earlier results stay valid", [v for r in rows(x) for v in r], [v for r in k for v in r], 0)


def errors(ctx):
    S = ctx.arr([F(v) for v in (0, 3, 1, 4, 0, 2)])
    what = ctx.pick(("length", "spline", "detection", "not run"), "case")
    T = ctx.arr([F(i) for i in range(5 if what == "length" else 6)])
    j = jit(ctx, {}, "nope" if what == "spline" else "cubic", "nope" if what == "detection" else "simple")
    st = ctx.call(j.get_imfs_and_trend, allowed=(ValueError,)) if what == "not run" else ctx.call(j.emd, S, T, allowed=(ValueError,))
    ctx.prove("bad time axis, spline kind or detection is a ValueError", st[0] == "exc", what)


def timeline(ctx, ns):
    m = ctx.mod(JIT)
    n = ctx.pick(ns, "n")
    t = m.get_timeline(n, ctx.pick([ctx.np.float64, ctx.np.int64], "dtype"))
    ctx.prove("default axis is 0..n-1", len(t) == n and all(ctx.truth(t[i] == i) for i in range(n)))


def tasks(tier):
    q = tier == "quick"
    FX, FX2 = dict(FIXE=1), dict(FIXE=2)
    DEF = dict(MAX_ITERATION=3)
    NOTHR = dict(FIXE=1, range_thr=0, total_power_thr=0)
    t = [
        Task("free-small", equal, dict(sig="free", ns=[2, 3, 4], cfgs=[FX, DEF])),
        Task("free-5", equal, dict(sig="free", ns=[5], cfgs=[FX], kinds=["cubic", "linear"])),
        Task("zig", equal, dict(sig="zig", ns=[6], cfgs=[FX], kinds=["linear", "cubic"], max_imfs=[1]), weight=2),
        Task("ray-kinds", equal, dict(sig="ray", ns=[8], cfgs=[FX], kinds=JK, max_imfs=[1, 2]), weight=2),
        Task("ray-default", equal, dict(sig="ray", ns=[8], cfgs=[DEF, dict(FIXE_H=1, MAX_ITERATION=4), dict(FIXE_H=2, MAX_ITERATION=4), FX2], max_imfs=[1], sifts=3), weight=2),
        Task("ray-nbsym", equal, dict(sig="ray", ns=[10], cfgs=[dict(FIXE=1, nbsym=k) for k in (1, 3, 4)], max_imfs=[1, 2]), weight=2),
        Task("ray-axes", equal, dict(sig="ray", ns=[7, 9], cfgs=[FX], max_imfs=[-1], axes=[(F(0), F(1, 2)), (F(-3), F(4))]), weight=2),
        Task("ray-thresholds", equal, dict(sig="ray", ns=[8], cfgs=[dict(MAX_ITERATION=3, svar_thr=0.5), dict(MAX_ITERATION=3, std_thr=5, svar_thr=0), dict(MAX_ITERATION=3, energy_ratio_thr=0.9, svar_thr=0)], max_imfs=[1], sifts=3), weight=2),
        Task("riding", equal, dict(sig="riding", ns=[8], cfgs=[dict(MAX_ITERATION=3, energy_ratio_thr=0.9, svar_thr=0)], max_imfs=[1], sifts=2), weight=2),
        Task("reset", equal, dict(sig="reset", ns=[7], cfgs=[dict(FIXE_H=2, MAX_ITERATION=7), dict(FIXE_H=3, MAX_ITERATION=8)], max_imfs=[1], sifts=6), weight=2),
        Task("cap", equal, dict(sig="ray", ns=[7], cfgs=[dict(MAX_ITERATION=1), dict(MAX_ITERATION=2)], max_imfs=[1, 2], sifts=2), weight=2),
        Task("ray-stops", equal, dict(sig="ray", ns=[8], cfgs=[dict(FIXE=1, range_thr=2), dict(FIXE=1, total_power_thr=8)]), weight=2),
        Task("plateau", equal, dict(sig="plateau", ns=[0], cfgs=[FX]), weight=2),
        Task("parabol", equal, dict(sig="ray", ns=[7], cfgs=[FX], dets=["parabol"], max_imfs=[1]), weight=2),
        Task("parabol-axes", equal, dict(sig="ray", ns=[7], cfgs=[FX], dets=["parabol"], kinds=["linear"], max_imfs=[1], axes=[(F(1), F(2)), (F(-7), F(1, 4))]), weight=2),
        Task("parabol-plateau", equal, dict(sig="plateau", ns=[0], cfgs=[FX], dets=["parabol"], max_imfs=[1])),
        Task("twice", twice, dict(n=7)),
        Task("errors", errors),
        Task("timeline", timeline, dict(ns=[1, 2, 5])),
    ]
    if not q:
        t += [
            Task("free-6", equal, dict(sig="free", ns=[6], cfgs=[FX], kinds=["linear", "cubic"]), weight=3),
            Task("ray-long", equal, dict(sig="ray", ns=[12, 14], cfgs=[FX, FX2], kinds=["cubic", "akima", "linear"]), weight=3),
            Task("patch", equal, dict(sig="patch", ns=[7, 8], cfgs=[FX], max_imfs=[1, -1]), weight=3),
        ]
    return t
