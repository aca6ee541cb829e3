"""Symmetries of the decomposition: sign, time reversal, offset, amplitude."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=400),
    bounds=["signals of 4-5 free samples, 6-8 alternating samples, segments up to 10 samples; offsets any value in [-8,8]; scales 1/64..4096; fixed sifting (and default stopping for the sign symmetry)"],
    outside=["reversal of signals with even-length flat extrema (their middle is rounded)", "absolute thresholds (they are set to zero for offset and scale)"],
)
NT = dict(total_power_thr=0, range_thr=0)


def signal(ctx, n, mode, bases=None, gap=0):
    if mode == "ray":
        return ray(ctx, n, 1, bases=bases, gap=gap)
    if mode == "long":
        return long_signal(ctx, n, (0, n // 2))
    S = ctx.reals("S", n, -4, 4)
    if mode == "zig":
        zigzag(ctx, S)
    return S


def same(ctx, what, a, b, sign=1, off=0, scale=1, rev=False, tol=None):
    """a: (imfs, residue) of the plain signal; b: of the transformed one"""
    ctx.prove("%s: same number of modes" % what, len(a[0]) == len(b[0]), "%d != %d" % (len(a[0]), len(b[0])))
    r = (lambda x: x[::-1]) if rev else (lambda x: x)
    for k in range(len(a[0])):
        ctx.prove_close("%s: modes follow" % what, r(vals(b[0][k])), [x * scale * sign for x in vals(a[0][k])], tol)
    ctx.prove_close("%s: residue follows" % what, r(vals(b[1])), [x * scale * sign + off for x in vals(a[1])], tol)


def dec(ctx, S, cfg, max_imf, how=0):
    emd = emd_cls(ctx)(**cfg)
    emd.emd(S, max_imf=max_imf)
    return emd.get_imfs_and_residue()


def negate(ctx, n, mode, cfgs, max_imf=1, gap=0, kinds=("cubic",)):
    cfg = dict(ctx.pick(cfgs, "cfg"), spline_kind=ctx.pick(kinds, "kind"))
    S = signal(ctx, n, mode, gap=gap)
    N = ctx.arr([-x for x in vals(S)])
    same(ctx, "sign", dec(ctx, S, cfg, max_imf), dec(ctx, N, cfg, max_imf), sign=-1)


def reverse(ctx, n, mode, cfgs, kinds=("cubic",)):
    cfg = dict(ctx.pick(cfgs, "cfg"), spline_kind=ctx.pick(kinds, "kind"))
    S = signal(ctx, n, mode)
    for a, b, _ in ref_extrema(ctx, vals(S)):
        if (b - a) % 2:
            ctx.abort("even plateau")
    N = ctx.arr(vals(S)[::-1])
    same(ctx, "reversal", dec(ctx, S, cfg, 1), dec(ctx, N, cfg, 1), rev=True)


def offset(ctx, n, mode, cfgs, max_imf=1, kinds=("cubic",)):
    cfg = dict(ctx.pick(cfgs, "cfg"), spline_kind=ctx.pick(kinds, "kind"), **NT)
    S = signal(ctx, n, mode)
    c = ctx.real("c", -8, 8)
    N = ctx.arr([x + c for x in vals(S)])
    same(ctx, "offset", dec(ctx, S, cfg, max_imf), dec(ctx, N, cfg, max_imf), off=c)


def scaling(ctx, n, mode, cfgs, scales, max_imf=1, gap=0, kinds=("cubic",)):
    cfg = dict(ctx.pick(cfgs, "cfg"), spline_kind=ctx.pick(kinds, "kind"), **NT)
    S = signal(ctx, n, mode, gap=gap)
    c = F(ctx.pick(scales, "scale"))
    c = c if ctx.symbolic else float(c)
    N = ctx.arr([x * c for x in vals(S)])
    same(ctx, "scale", dec(ctx, S, cfg, max_imf), dec(ctx, N, cfg, max_imf), scale=c, tol=F(1, 10**6) * F(c))


def tasks(tier):
    q = tier == "quick"
    F1 = [dict(FIXE=1)]
    LK = ["cubic", "linear", "quadratic", "cubic_hermite"]
    SC = ["1/64", 2, 4096]
    t = [
        Task("negate-free-n4", negate, dict(n=4, mode="free", cfgs=F1)),
        Task("negate-zig-n6", negate, dict(n=6, mode="zig", cfgs=F1, kinds=KINDS if not q else LK)),
        Task("negate-free-n5", negate, dict(n=5, mode="free", cfgs=F1), budget=30 if q else None),
        Task("negate-fixe_h-n5", negate, dict(n=5, mode="zig", cfgs=[dict(FIXE_H=1, MAX_ITERATION=3)]), budget=30 if q else None),
        Task("negate-default-ray", negate, dict(n=6, mode="ray", cfgs=[dict(MAX_ITERATION=3)]), budget=30 if q else None),
        Task("negate-parabol-ray", negate, dict(n=6, mode="ray", gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")]), budget=20 if q else None, path_timeout=20),
        Task("reverse-zig-n6", reverse, dict(n=6, mode="zig", cfgs=F1, kinds=LK)),
        Task("reverse-zig-n8", reverse, dict(n=8, mode="zig", cfgs=[dict(FIXE=1), dict(FIXE=1, nbsym=1)])),
        Task("reverse-free-n5", reverse, dict(n=5, mode="free", cfgs=F1), budget=30 if q else None),
        Task("reverse-ray-n10", reverse, dict(n=10, mode="ray", cfgs=F1, kinds=LK)),
        Task("offset-zig-n6", offset, dict(n=6, mode="zig", cfgs=F1, kinds=LK)),
        Task("offset-zig-n5-all", offset, dict(n=5, mode="zig", cfgs=F1, max_imf=2), budget=30 if q else None),
        Task("offset-ray-n9", offset, dict(n=9, mode="ray", cfgs=[dict(FIXE=1), dict(FIXE=2)]), budget=30 if q else None),
        Task("negate-long-n40", negate, dict(n=40, mode="long", cfgs=F1)),
        Task("reverse-long-n40", reverse, dict(n=40, mode="long", cfgs=F1)),
        Task("scale-long-n40", scaling, dict(n=40, mode="long", cfgs=F1, scales=["1/1048576", 3], kinds=["linear"])),
        Task("scale-zig-n6", scaling, dict(n=6, mode="zig", cfgs=F1, scales=SC, kinds=LK)),
        Task("scale-ray-n9", scaling, dict(n=9, mode="ray", cfgs=F1, scales=SC, max_imf=2), budget=30 if q else None),
        Task("scale-parabol-ray", scaling, dict(n=6, mode="ray", gap=F(1, 1000), cfgs=[dict(FIXE=1, extrema_detection="parabol")], scales=[2]), budget=20 if q else None, path_timeout=20),
    ]
    if not q:
        t += [
            Task("negate-free-n6", negate, dict(n=6, mode="free", cfgs=F1), weight=2),
            Task("reverse-free-n6", reverse, dict(n=6, mode="free", cfgs=F1), weight=2),
            Task("offset-free-n5", offset, dict(n=5, mode="free", cfgs=F1, max_imf=2), weight=2),
            Task("scale-free-n5", scaling, dict(n=5, mode="free", cfgs=F1, scales=SC, max_imf=2), weight=2),
        ]
    return t
