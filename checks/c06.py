"""Sample-based extrema and zero crossings are exactly those of the signal."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=45, thorough=300),
    bounds=["signals of 3-6 samples (7 thorough), any real values including ties and zeros; up to 9 samples when alternating or on segments"],
    outside=["signals of fewer than 3 samples", "underflow of products of tiny samples"],
)


def check(ctx, S, T, emd):
    n = len(S)
    mp, mv, np_, nv, zer = emd.find_extrema(T, S)
    V, TT = [1.0 * x for x in vals(S)], vals(T)  # integer samples as numbers
    ext = ref_extrema(ctx, V)
    for kind, pos, val in (("max", mp, mv), ("min", np_, nv)):
        want = [(a, b) for a, b, k in ext if k == kind]
        what = "maxima" if kind == "max" else "minima"
        ctx.prove("exactly the local %s, each once" % what, len(pos) == len(want) and len(val) == len(want), "%d reported, %d exist at %s" % (len(pos), len(want), want))
        for k, (a, b) in enumerate(want):
            mids = {(a + b) // 2, (a + b + 1) // 2}
            ctx.prove("extremum at its sample, plateau at its middle", ctx.Or(*[ctx.near(pos[k], TT[i], 0) for i in mids]), "%s of %s" % (pos[k], (a, b)))
            ctx.prove_close("value of the extremum", val[k], V[a], 0)
    want = ref_nzero(ctx, V)
    ctx.prove("each sign change or run of zeros is one zero crossing", len(zer) == want, "%d reported, %d exist" % (len(zer), want))
    for i in range(len(zer)):
        ctx.prove("zero crossings lie inside the signal, in order", ctx.And(zer[i] >= 0, zer[i] <= n - 1, True if i == 0 else zer[i] > zer[i - 1]), str(zer))


def free(ctx, n, lo=-4, hi=4, nz=False, dtype="float64", T=None):
    emd = emd_cls(ctx)()
    S = ctx.reals("S", n, lo, hi) if dtype == "float64" else ctx.ints("S", n, lo, hi, dtype)
    TT = ctx.np.arange(n, dtype="float64") if T is None else ctx.arr([F(t) for t in T])
    check(ctx, S, TT, emd)


def plateau(ctx, runs, dtype="float64"):
    """longer signals built of runs of equal samples, run lengths and levels free"""
    emd = emd_cls(ctx)()
    S = []
    for r in range(runs):
        x = ctx.real("L%d" % r, -4, 4) if dtype == "float64" else ctx.int("L%d" % r, -4, 4)
        S += [x] * ctx.pick([1, 2, 3, 4] if runs <= 3 else [1, 3], "run length")
    if len(S) < 3:
        ctx.abort("too short")
    check(ctx, ctx.arr(S, dtype), ctx.np.arange(len(S), dtype="float64"), emd)


def zigs(ctx, n):
    emd = emd_cls(ctx)()
    S = ctx.reals("S", n, -4, 4)
    zigzag(ctx, S)
    check(ctx, S, ctx.np.arange(n, dtype="float64"), emd)


def rays_(ctx, n):
    emd = emd_cls(ctx)()
    S = ray(ctx, n, 2)
    check(ctx, S, ctx.np.arange(n, dtype="float64"), emd)


def long(ctx, n, flat, free):
    check(ctx, long_signal(ctx, n, free, flat=flat), ctx.np.arange(n, dtype="float64"), emd_cls(ctx)())


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("free-n3", free, dict(n=3)),
        Task("free-n4", free, dict(n=4)),
        Task("free-n4-T", free, dict(n=4, T=[-2, 1, 2, 7])),
        Task("free-positive-n6", free, dict(n=6, lo=1, hi=8)),
        Task("free-n5", free, dict(n=5)),
        Task("int-n4", free, dict(n=4, dtype="int64")),
        Task("int8-n4", free, dict(n=4, lo=-128, hi=127, dtype="int8")),
        Task("uint8-n4", free, dict(n=4, lo=0, hi=255, dtype="uint8")),
        Task("int16-n3", free, dict(n=3, lo=-2**15, hi=2**15 - 1, dtype="int16")),
        Task("plateaus-3", plateau, dict(runs=3)),
        Task("plateaus-4", plateau, dict(runs=4)),
        Task("long-n150", long, dict(n=150, flat=0, free=(0, 1, 75, -1))),
        Task("long-flat-n300", long, dict(n=300, flat=4, free=(1, -3))),
        Task("rays-n9", rays_, dict(n=9), budget=30 if q else None),
    ]
    if not q:
        t += [Task("free-positive-n7", free, dict(n=7, lo=1, hi=8), weight=2), Task("free-n6", free, dict(n=6), weight=2), Task("plateaus-5", plateau, dict(runs=5), weight=2), Task("zig-n8", zigs, dict(n=8))]
    return t
