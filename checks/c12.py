"""Time axis: what the decomposition may and may not depend on."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=300),
    bounds=["signals of 4-7 samples; time values any increasing reals (sample-based detection) or affine images of uniform and non-uniform axes (parabolic detection, segments of signals)"],
    outside=["decreasing axes"],
)


def dec(ctx, S, T, cfg, max_imf=1):
    emd = emd_cls(ctx)(**cfg)
    out = emd.emd(S, T, max_imf=max_imf)
    return out


def same(ctx, what, a, b):
    ctx.prove(what, tuple(a.shape) == tuple(b.shape), "%s != %s" % (a.shape, b.shape))
    for k in range(len(a)):
        ctx.prove_close(what, vals(a[k]), vals(b[k]))


def ignored(ctx, n, cfgs, kinds=("cubic",)):
    """sample-based detection: any time axis gives the same result"""
    cfg = dict(ctx.pick(cfgs, "cfg"), spline_kind=ctx.pick(kinds, "kind"))
    S = ctx.reals("S", n, -4, 4)
    zigzag(ctx, S)
    T = ctx.reals("T", n, -100, 100)
    for i in range(n - 1):
        ctx.assume(T[i + 1] - T[i] >= F(1, 64))
    same(ctx, "sample-based detection does not depend on the time values", dec(ctx, S, None, cfg), dec(ctx, S, T, cfg))


def default_axis(ctx, n, cfgs, t0s, steps, mode="ray"):
    """no time axis means the sample indices; any uniform axis gives the same"""
    cfg = ctx.pick(cfgs, "cfg")
    S = ray(ctx, n, 1, gap=F(1, 1000))
    h, t0 = F(ctx.pick(steps, "step")), F(ctx.pick(t0s, "start"))
    T = ctx.arr([t0 + h * i for i in range(n)])
    same(ctx, "a uniform time axis equals no time axis", dec(ctx, S, None, cfg), dec(ctx, S, T, cfg))


def affine(ctx, axis, maps, cfgs, bases=None):
    cfg = ctx.pick(cfgs, "cfg")
    n = len(axis)
    S = ray(ctx, n, 1, gap=F(1, 100), bases=bases)
    a, b = ctx.pick(maps, "map")
    T = ctx.arr([F(x) for x in axis])
    T2 = ctx.arr([F(x) * F(a) + F(b) for x in axis])
    try:
        r = dec(ctx, S, T, cfg)
    except Exception as ex:
        if not ctx.symbolic or type(ex).__module__ == "builtins":
            ctx.abort("no decomposition on this axis")
        raise
    same(ctx, "shifting and stretching the time axis changes nothing", r, dec(ctx, S, T2, cfg))


def wrong(ctx, n):
    cfg = ctx.pick([{}, dict(extrema_detection="parabol"), dict(FIXE=1), dict(FIXE_H=2, spline_kind="akima")], "cfg")
    S = ctx.reals("S", n, -4, 4)
    m = ctx.pick([1, n - 1, n + 1, 2 * n], "length of T")
    T = ctx.arr([F(i) for i in range(m)])
    how = ctx.pick(["emd", "call"], "entry")
    emd = emd_cls(ctx)(**cfg)
    r = ctx.call(emd.emd if how == "emd" else emd, S, T, allowed=(ValueError,))
    ctx.prove("a time axis of another length is refused", r[0] == "exc", "%d samples, %d times" % (n, m))


def duplicate(ctx, n):
    """repeated time values are refused"""
    emd = emd_cls(ctx)(extrema_detection="parabol")
    S = ctx.reals("S", n, -4, 4)
    k = ctx.pick(list(range(n - 1)), "where")
    T = [F(i) for i in range(n)]
    T[k + 1] = T[k]
    r = ctx.call(emd.emd, S, ctx.arr(T), allowed=(AssertionError, ValueError))
    ctx.prove("a repeated time value is refused", r[0] == "exc", "at %d" % k)


def tasks(tier):
    q = tier == "quick"
    P = dict(FIXE=1, extrema_detection="parabol")
    return [
        Task("ignored-n5", ignored, dict(n=5, cfgs=[dict(FIXE=1)], kinds=KINDS)),
        Task("ignored-n7", ignored, dict(n=7, cfgs=[dict(FIXE=1)])),
        Task("ignored-default-n5", ignored, dict(n=5, cfgs=[dict(MAX_ITERATION=2), dict(FIXE_H=1, MAX_ITERATION=2)]), budget=30 if q else None),
        Task("default-axis-n6", default_axis, dict(n=6, cfgs=[P, dict(FIXE=1)], t0s=[0, -3, 100], steps=[1, "1/4", 8]), budget=60 if q else None, path_timeout=20),
        Task("affine-n7", affine, dict(axis=[0, 1, 2, 3, 4, 5, 6], maps=[(1, 64), ("1/8", 0), (16, -5)], cfgs=[P]), budget=60 if q else None, path_timeout=20),
        Task("affine-gaps-n7", affine, dict(axis=[0, 1, 3, 4, 5, 7, 8], maps=[(1, 64), ("1/8", 0), (16, -5)], cfgs=[P]), budget=60 if q else None, path_timeout=20),
        Task("wrong-length", wrong, dict(n=5)),
        Task("duplicate", duplicate, dict(n=5)),
    ]
