"""Totality: every finite signal decomposes, without error, into finite values."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=400),
    bounds=["signals of 2-5 free samples, 7-8 alternating, segments up to 14 samples; every spline kind, 1-4 mirrored points, fixed and default stopping with at most 3 siftings per mode"],
    outside=["single-sample signals", "parabolic detection on non-uniform axes or with neighbouring samples closer than 1/1000", "overflow of huge values"],
)


def run(ctx, n, mode, cfgs, kinds=("cubic",), nbsyms=(2,), max_imfs=(-1,), lo=-4, hi=4, gap=0, bases=None, dtype="float64", T=None):
    cfg = ctx.pick(cfgs, "cfg")
    kind = ctx.pick(kinds, "kind")
    emd = emd_cls(ctx)(spline_kind=kind, nbsym=ctx.pick(nbsyms, "nbsym"), **cfg)
    if mode == "ray":
        S = ray(ctx, n, 1, gap=gap, bases=bases)
    elif mode == "long":
        S = long_signal(ctx, n, bases, flat=gap)
    elif dtype.startswith(("int", "uint")):
        S = ctx.ints("S", n, lo, hi, dtype)
    else:
        S = ctx.reals("S", n, lo, hi)
        if dtype != "float64":
            S = S.astype(dtype)
    if mode == "zig":
        zigzag(ctx, S)
    if mode == "gap":
        for i in range(n - 1):
            ctx.assume(ctx.Or(S[i + 1] == S[i], S[i + 1] - S[i] >= gap, S[i] - S[i + 1] >= gap))
    TT = None if T is None else ctx.arr([F(t) for t in T])
    out = emd.emd(S, TT, max_imf=ctx.pick(max_imfs, "max_imf"))
    ctx.prove("one row per component, one column per sample", len(out.shape) == 2 and out.shape[1] == n, str(out.shape))
    for k in range(len(out)):
        for i in range(n):
            x = out[k][i]
            ctx.prove("every returned value is finite", ctx.finite(x), "row %d sample %d" % (k, i))
    ctx.cover("rows=%d" % len(out))


def plateaus(ctx, runs, lens, cfgs, kinds=("cubic",)):
    """signals made of flat runs"""
    emd = emd_cls(ctx)(spline_kind=ctx.pick(kinds, "kind"), **ctx.pick(cfgs, "cfg"))
    S = []
    lv = [ctx.real("L%d" % r, -4, 4) for r in range(runs)]
    for i in range(runs - 1):
        ctx.assume(ctx.Or(lv[i + 1] - lv[i] >= F(1, 1000), lv[i] - lv[i + 1] >= F(1, 1000)))
    for r in range(runs):
        S += [lv[r]] * ctx.pick(lens, "run length")
    n = len(S)
    if n < 2:
        ctx.abort("too short")
    out = emd.emd(ctx.arr(S), max_imf=1)
    ctx.prove("one row per component, one column per sample", len(out.shape) == 2 and out.shape[1] == n, str(out.shape))
    for k in range(len(out)):
        for i in range(n):
            ctx.prove("every returned value is finite", ctx.finite(out[k][i]), "row %d sample %d" % (k, i))


def tasks(tier):
    q = tier == "quick"
    F1 = [dict(FIXE=1)]
    t = [
        Task("short-n2", run, dict(n=2, mode="free", cfgs=[{}, dict(FIXE=1), dict(FIXE_H=1), dict(extrema_detection="parabol")])),
        Task("short-n3", run, dict(n=3, mode="free", cfgs=[{}, dict(FIXE=1), dict(FIXE_H=1)])),
        Task("parabol-n3", run, dict(n=3, mode="gap", gap=F(1, 1000), cfgs=[dict(extrema_detection="parabol")])),
        Task("parabol-n4", run, dict(n=4, mode="gap", gap=F(1, 1000), cfgs=[dict(extrema_detection="parabol")]), budget=30),
        Task("free-n4", run, dict(n=4, mode="free", cfgs=[dict(FIXE=1), {}])),
        Task("free-n5", run, dict(n=5, mode="free", lo=1, hi=8, cfgs=F1, max_imfs=[1])),
        Task("kinds-zig-n5", run, dict(n=5, mode="zig", cfgs=F1, kinds=KINDS, max_imfs=[1])),
        Task("kinds-zig-n7", run, dict(n=7, mode="zig", cfgs=F1, kinds=KINDS, nbsyms=[1, 2, 4], max_imfs=[1])),
        Task("kinds-ray-n9", run, dict(n=9, mode="ray", cfgs=F1, kinds=KINDS, nbsyms=[1, 2, 3], max_imfs=[1])),
        Task("ray-n14", run, dict(n=14, mode="ray", cfgs=F1, max_imfs=[2]), budget=40 if q else None),
        Task("ray-default-n6", run, dict(n=6, mode="ray", cfgs=[dict(MAX_ITERATION=3)]), budget=40 if q else None),
        Task("ray-parabol-n6", run, dict(n=6, mode="ray", gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")], kinds=["cubic", "linear", "pchip"], nbsyms=[1, 2], max_imfs=[1]), budget=30 if q else None, path_timeout=20),
        Task("long-kinds-n40", run, dict(n=40, mode="long", bases=(20,), cfgs=F1, kinds=KINDS, max_imfs=[1])),
        Task("long-nbsym-n40", run, dict(n=40, mode="long", bases=(0, -1), cfgs=F1, nbsyms=[1, 6, 30], max_imfs=[1], kinds=["linear"])),
        Task("long-flat-n60", run, dict(n=60, mode="long", bases=(1,), gap=5, cfgs=F1, max_imfs=[1], kinds=["linear", "pchip"])),
        Task("long-n120", run, dict(n=120, mode="long", bases=(60,), cfgs=F1, max_imfs=[1])),
        Task("plateaus-5", plateaus, dict(runs=5, lens=[1, 2], cfgs=F1), budget=30 if q else None),
        Task("plateaus-4-kinds", plateaus, dict(runs=4, lens=[1, 3], cfgs=F1, kinds=KINDS), budget=30 if q else None),
        Task("int8-n5", run, dict(n=5, mode="zig", cfgs=F1, dtype="int8", max_imfs=[1])),
        Task("uint8-n5", run, dict(n=5, mode="zig", cfgs=F1, dtype="uint8", lo=0, hi=9, max_imfs=[1])),
        Task("int8-full-n4", run, dict(n=4, mode="free", cfgs=F1, dtype="int8", lo=-128, hi=127, max_imfs=[1])),
        Task("float16-n5", run, dict(n=5, mode="zig", cfgs=F1, dtype="float16", kinds=KINDS, max_imfs=[1])),
        Task("float32-n5", run, dict(n=5, mode="zig", cfgs=F1, dtype="float32", kinds=KINDS, max_imfs=[1])),
    ]
    if not q:
        t += [
            Task("free-n6", run, dict(n=6, mode="free", cfgs=F1, max_imfs=[1]), weight=2),
            Task("default-n5", run, dict(n=5, mode="free", cfgs=[dict(MAX_ITERATION=4)]), weight=2),
            Task("kinds-n5", run, dict(n=5, mode="free", cfgs=F1, kinds=KINDS, nbsyms=[1, 2, 3]), weight=2),
            Task("parabol-n5", run, dict(n=5, mode="gap", gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")], max_imfs=[1]), weight=2),
            Task("plateaus-6", plateaus, dict(runs=6, lens=[1, 2, 3], cfgs=F1), weight=2),
        ]
    return t
