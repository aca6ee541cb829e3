"""EMD reconstruction: the returned components always add up to the input."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=600),
    bounds=["exact layer: signals of 4-6 samples, any real values in the stated box, every spline kind, FIXE/FIXE_H/default stopping with at most 3 siftings per mode",
            "stub layer: signals of 2 samples, arbitrary extrema counts, envelopes and acceptance verdicts, at most 6 siftings"],
    outside=["floating-point rounding", "longer signals (behaviour depends on length only through the extrema and envelopes, which the stub layer leaves arbitrary)"],
    stubs=["stub layer: find_extrema, extract_max_min_spline, check_imf, end_condition replaced by solver-chosen results"],
)


def exact(ctx, n, lo, hi, max_imfs=(-1,), kinds=("cubic",), nbsyms=(2,), dtype="float64", cfgs=({},), T=None, how="emd", zig=False, rays=0, gap=0, long=None):
    """the whole decomposition of an arbitrary signal, every function real"""
    EMD = emd_cls(ctx)
    S = ctx.ints("S", n, lo, hi, dtype) if dtype.startswith(("int", "uint")) else long_signal(ctx, n, long) if long else ray(ctx, n, rays, gap=gap) if rays else ctx.reals("S", n, lo, hi)
    if dtype in ("float32", "float16"):
        S = S.astype(dtype)
    if zig:
        zigzag(ctx, S)
    keep = [1.0 * x for x in vals(S)]
    kind = ctx.pick(kinds, "spline")
    max_imf = ctx.pick(max_imfs, "max_imf")
    nbsym = ctx.pick(nbsyms, "nbsym")
    cfg = ctx.pick(cfgs, "cfg")
    emd = EMD(spline_kind=kind, nbsym=nbsym, **cfg)
    TT = None if T is None else ctx.arr([F(t) for t in T])
    out = emd(S, TT, max_imf) if how == "call" else emd.emd(S, T=TT, max_imf=max_imf)
    ctx.observe("out", out)
    ctx.prove("two-dimensional, one column per sample", len(out.shape) == 2 and out.shape[1] == n, str(out.shape))
    ctx.prove_close("sum of components equals the signal", sum_rows(ctx, out, n), keep, F(1, 100) if dtype == "float16" else F(1, 10**4) if dtype == "float32" else None)
    ctx.cover("imfs=%d" % len(emd.imfs))


def stub(ctx, n, max_imfs, cfgs, max_calls, pairs=PAIRS):
    cfg = ctx.pick(cfgs, "cfg")
    emd = stub_emd(ctx, n, pairs=pairs, max_calls=max_calls, **cfg)
    S = ctx.reals("S", n, -8, 8)
    keep = [1.0 * x for x in vals(S)]
    out = emd.emd(S, max_imf=ctx.pick(max_imfs, "max_imf"))
    ctx.observe("out", out)
    ctx.prove("shape", len(out.shape) == 2 and out.shape[1] == n, str(out.shape))
    ctx.prove_close("sum of components equals the signal", sum_rows(ctx, out, n), keep, F(1, 10**6))
    imfs, res = emd.get_imfs_and_residue()
    ctx.prove_close("modes plus residue equal the signal", [a + b for a, b in zip(sum_rows(ctx, imfs, n), vals(res))], keep)
    ctx.cover("rows=%d" % len(out))


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("fixe-cubic-n5", exact, dict(n=5, lo=1, hi=8, cfgs=[dict(FIXE=1), dict(FIXE=2)])),
        Task("kinds-n4", exact, dict(n=4, lo=-4, hi=4, max_imfs=[-1], kinds=["cubic", "akima"], cfgs=[dict(FIXE=1)])),
        Task("kinds-zig-n5", exact, dict(n=5, max_imfs=[1], lo=-4, hi=4, kinds=KINDS, zig=True, cfgs=[dict(FIXE=1)])),
        Task("nbsym-n5", exact, dict(n=5, lo=1, hi=8, nbsyms=[1, 3], cfgs=[dict(FIXE=1)])),
        Task("zig-n7", exact, dict(n=7, lo=-8, hi=8, zig=True, max_imfs=[1, 2] if not q else [1], cfgs=[dict(FIXE=1)])),
        Task("int-n5", exact, dict(n=5, max_imfs=[1], lo=-2, hi=2, dtype="int64", zig=True, cfgs=[dict(FIXE=1)])),
        Task("int16-n5", exact, dict(n=5, max_imfs=[1], lo=-2**15, hi=2**15 - 1, dtype="int16", zig=True, cfgs=[dict(FIXE=1)])),
        Task("f32-n5", exact, dict(n=5, max_imfs=[1], lo=-4, hi=4, dtype="float32", zig=True, cfgs=[dict(FIXE=1)])),
        Task("call-T-n5", exact, dict(n=5, max_imfs=[1], lo=-4, hi=4, T=[2, 3, 5, 6, 9], zig=True, how="call", cfgs=[dict(FIXE=1)])),
        Task("default-n5", exact, dict(n=5, lo=-4, hi=4, rays=1, cfgs=[dict(MAX_ITERATION=3), dict(MAX_ITERATION=4)])),
        Task("fixe_h-n5", exact, dict(n=5, lo=-4, hi=4, zig=True, cfgs=[dict(FIXE_H=1, MAX_ITERATION=4)])),
        Task("parabol-n6", exact, dict(n=6, lo=-4, hi=4, rays=1, gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")]), path_timeout=15, budget=15 if q else None),
        Task("parabol-T-n6", exact, dict(n=6, lo=-4, hi=4, T=[2, 3, 5, 6, 9, 11], rays=1, gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")]), path_timeout=15, budget=15 if q else None),
        Task("long-n30", exact, dict(n=30, lo=-4, hi=4, long=(-1,), max_imfs=[1, 2], cfgs=[dict(FIXE=1)])),
        Task("long-kinds-n30", exact, dict(n=30, lo=-4, hi=4, long=(15,), max_imfs=[1], kinds=KINDS, cfgs=[dict(FIXE=1)])),
        Task("long-n120", exact, dict(n=120, lo=-4, hi=4, long=(60,), max_imfs=[1], cfgs=[dict(FIXE=1)])),
        Task("stub-fixe", stub, dict(n=2, max_imfs=[-1, 1, 2], pairs=FEW, cfgs=[dict(FIXE=1), dict(FIXE=2)], max_calls=3 if q else 5)),
        Task("stub-fixe_h", stub, dict(n=2, max_imfs=[-1, 1], cfgs=[dict(FIXE_H=1, MAX_ITERATION=4)], max_calls=2 if q else 4)),
        Task("stub-default", stub, dict(n=2, max_imfs=[-1, 1], cfgs=[dict(MAX_ITERATION=3)], max_calls=2 if q else 4)),
    ]
    if not q:
        t += [
            Task("fixe-cubic-n6", exact, dict(n=6, lo=-8, hi=8, cfgs=[dict(FIXE=1)]), weight=2),
            Task("kinds-n5", exact, dict(n=5, lo=-8, hi=8, kinds=KINDS, cfgs=[dict(FIXE=1)]), weight=2),
            Task("default-all-n5", exact, dict(n=5, lo=-8, hi=8, cfgs=[dict(MAX_ITERATION=4)]), weight=2),
            Task("parabol-all-n5", exact, dict(n=5, lo=-8, hi=8, cfgs=[dict(FIXE=1, extrema_detection="parabol")]), weight=2),
            Task("zig-n8", exact, dict(n=8, lo=-8, hi=8, zig=True, cfgs=[dict(FIXE=1), dict(FIXE=3)]), weight=2),
        ]
    return t
