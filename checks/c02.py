"""Accessors: modes, residue and trend of the last decomposition are consistent with its output."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=300),
    bounds=["signals of 2 samples with arbitrary extrema counts/envelopes/verdicts, at most 4 siftings", "exact signals of 5 samples"],
    outside=["floating-point rounding"],
    stubs=["stub layer: find_extrema, extract_max_min_spline, check_imf, end_condition replaced by solver-chosen results"],
)


def check_accessors(ctx, emd, out, keep):
    n = len(keep)
    imfs, res = emd.get_imfs_and_residue()
    imfs2, trend = emd.get_imfs_and_trend()
    ctx.observe("res", res)
    ctx.prove("residue shape", tuple(res.shape) == (n,), str(res.shape))
    ctx.prove("modes shape", len(imfs.shape) == 2 and imfs.shape[1] == n, str(imfs.shape))
    ctx.prove_close("modes plus residue equal the signal", [a + b for a, b in zip(sum_rows(ctx, imfs, n), vals(res))], keep)
    # "zero" up to the usual comparison tolerance; remainders between 1e-9 and 1e-7 are not judged
    zero = ctx.truth(ctx.And(*[ctx.And(r <= 1e-9, r >= -1e-9) for r in vals(res)]))
    if not zero:
        ctx.assume(ctx.Or(*[ctx.Or(r >= 1e-7, r <= -1e-7) for r in vals(res)]))
    want = rows(imfs) + ([] if zero else [vals(res)])
    ctx.prove("the output has one row per mode, plus the residue iff it is not zero", len(out) == len(want), "%d rows, %d modes, zero residue %s" % (len(out), len(imfs), zero))
    for k in range(len(want)):
        ctx.prove_close("output rows are the modes, then the residue", vals(out[k]), want[k])
    ctx.prove("trend shape", tuple(trend.shape) == (n,), str(trend.shape))
    if zero and len(imfs) > 0:
        wt, wm = vals(imfs[len(imfs) - 1]), rows(imfs)[:-1]
    else:
        wt, wm = vals(res), rows(imfs)
    ctx.prove_close("trend is the residue, or the slowest mode when the residue is zero", vals(trend), wt)
    ctx.prove("modes next to the trend", len(imfs2) == len(wm), "%d != %d" % (len(imfs2), len(wm)))
    for k in range(len(wm)):
        ctx.prove_close("modes next to the trend", vals(imfs2[k]), wm[k])
    ctx.prove_close("modes plus trend equal the signal", [a + b for a, b in zip(sum_rows(ctx, imfs2, n), vals(trend))], keep)
    ctx.cover("zero=%s imfs=%d" % (zero, len(imfs)))
    return zero


def stub(ctx, n, max_imfs, cfgs, max_calls, pairs):
    emd = stub_emd(ctx, n, max_calls=max_calls, pairs=pairs, **ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -8, 8)
    keep = vals(S)
    out = emd.emd(S, max_imf=ctx.pick(max_imfs, "max_imf"))
    check_accessors(ctx, emd, out, keep)


def exact(ctx, n, lo, hi, cfg, max_imfs=(-1,)):
    emd = emd_cls(ctx)(**cfg)
    S = ctx.reals("S", n, lo, hi)
    zigzag(ctx, S)
    keep = vals(S)
    out = emd.emd(S, max_imf=ctx.pick(max_imfs, "max_imf"))
    check_accessors(ctx, emd, out, keep)


def before(ctx):
    which = ctx.pick(["EMD", "EEMD", "CEEMDAN"], "class")
    cls = getattr(ctx.mod("PyEMD." + which), which)
    obj = cls()
    for name in ("get_imfs_and_residue", "get_imfs_and_trend"):
        if not hasattr(obj, name):
            continue
        r = ctx.call(getattr(obj, name), allowed=(ValueError,))
        ctx.prove("accessor before any run is an error", r[0] == "exc", which + "." + name)


def const(ctx, n):
    """signals without any mode, including the zero signal"""
    emd = emd_cls(ctx)()
    v = ctx.real("v", -4, 4)
    w = ctx.real("w", -4, 4)
    S = ctx.arr([v + w * i for i in range(n)])
    keep = vals(S)
    out = emd.emd(S)
    check_accessors(ctx, emd, out, keep)
    ctx.prove("a trend has no modes", len(emd.get_imfs_and_residue()[0]) == 0)


def tasks(tier):
    q = tier == "quick"
    m = 2 if q else 4
    return [
        Task("before", before),
        Task("trend-only-n4", const, dict(n=4)),
        Task("zig-n5", exact, dict(n=5, lo=-4, hi=4, cfg=dict(FIXE=1), max_imfs=[1])),
        Task("zig-all-n5", exact, dict(n=5, lo=-4, hi=4, cfg=dict(FIXE=1, range_thr=2))),
        Task("stub-fixe", stub, dict(n=2, max_imfs=[-1, 1, 2], pairs=FEW, cfgs=[dict(FIXE=1), dict(FIXE=2)], max_calls=m + 1)),
        Task("stub-fixe_h", stub, dict(n=2, max_imfs=[-1, 1], pairs=PAIRS, cfgs=[dict(FIXE_H=1, MAX_ITERATION=4)], max_calls=m)),
        Task("stub-default", stub, dict(n=2, max_imfs=[-1, 1], pairs=PAIRS, cfgs=[dict(MAX_ITERATION=3)], max_calls=m)),
    ]
