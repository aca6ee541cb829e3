"""Parabolic extrema on a uniform time axis."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=400),
    bounds=["signals of 3-5 samples (6 thorough), any real values; neighbouring samples equal or at least 1/1000 apart; any offset and step of the time axis"],
    outside=["non-uniform time axes (a sample that is no extremum can own a vertex there)", "neighbours closer than 1/1000 but not equal"],
)


def check(ctx, S, T, emd, h, sc=1):
    n = len(S)
    mp, mv, np_, nv, zer = emd.find_extrema(T, S if sc == 1 else S * sc)
    if sc != 1:
        mv, nv = mv / sc, nv / sc
    V, TT = vals(S), vals(T)
    ext = ref_extrema(ctx, V)
    for kind, pos, val in (("max", mp, mv), ("min", np_, nv)):
        want = [(a, b) for a, b, k in ext if k == kind]
        what = "maxima" if kind == "max" else "minima"
        ctx.prove("exactly one vertex per local extremum (%s)" % what, len(pos) == len(want) and len(val) == len(want), "%d reported, %d exist at %s" % (len(pos), len(want), want))
        for k, (a, b) in enumerate(want):
            if a == b:
                p, s, q = V[a - 1], V[a], V[a + 1]
                den = p - 2 * s + q
                vt = TT[a] + h * (p - q) / (2 * den)
                vv = s - (p - q) * (p - q) / (8 * den)
                ctx.prove_close("position is the vertex of the parabola through the extremum and its neighbours", pos[k], vt)
                ctx.prove_close("value is the vertex of the parabola through the extremum and its neighbours", val[k], vv)
                ctx.prove("vertex within half a sample", ctx.And(pos[k] - TT[a] <= h * F(1, 2) + F(1, 10**6), TT[a] - pos[k] <= h * F(1, 2) + F(1, 10**6)) if ctx.symbolic else abs(pos[k] - TT[a]) <= h * 0.5 + 1e-6)
            else:
                ctx.prove_close("a plateau's vertex is at its middle", pos[k], (TT[a] + TT[b]) / 2)
            ctx.prove("the vertex is at least as extreme as the sample", val[k] >= V[a] - 1e-6 if kind == "max" else val[k] <= V[a] + 1e-6)
    for pos in (mp, np_):
        for k in range(1, len(pos)):
            ctx.prove("in increasing order", pos[k] > pos[k - 1])
    ctx.prove("each sign change or run of zeros is one zero crossing", len(zer) == ref_nzero(ctx, V))


def free(ctx, n, lo, hi, h=1, t0=0, scales=(1,)):
    sc = ctx.pick(scales, "amplitude")
    emd = emd_cls(ctx)(extrema_detection="parabol")
    S = ctx.reals("S", n, lo, hi)
    for i in range(n - 1):
        if ctx.truth(S[i + 1] > S[i]):
            ctx.assume(S[i + 1] - S[i] >= 0.001)
        elif ctx.truth(S[i + 1] < S[i]):
            ctx.assume(S[i] - S[i + 1] >= 0.001)
    T = ctx.arr([F(t0) + F(h) * i for i in range(n)])
    check(ctx, S, T, emd, F(h) if ctx.symbolic else float(F(h)), sc)


def axes(ctx, n):
    """any offset, very small and very large steps"""
    h = ctx.pick([F(1, 2**20), F(1, 100), F(1000), F(2**20)], "step")
    free(ctx, n, 1, 8, h=h, t0=h * ctx.pick([0, -20, 50], "offset"))


def rays_(ctx, n):
    emd = emd_cls(ctx)(extrema_detection="parabol")
    S = ray(ctx, n, 1, gap=0.001)
    check(ctx, S, ctx.arr([F(i) for i in range(n)]), emd, F(1) if ctx.symbolic else 1.0)


def plateau(ctx, runs):
    emd = emd_cls(ctx)(extrema_detection="parabol")
    S = []
    lv = [ctx.real("L%d" % r, 1, 8) for r in range(runs)]
    for i in range(runs - 1):
        if ctx.truth(lv[i + 1] > lv[i]):
            ctx.assume(lv[i + 1] - lv[i] >= 0.001)
        else:
            ctx.assume(lv[i] - lv[i + 1] >= 0.001)
    for r in range(runs):
        S += [lv[r]] * ctx.pick([1, 2, 3], "run length")
    if len(S) < 3:
        ctx.abort("too short")
    check(ctx, ctx.arr(S), ctx.arr([F(i) for i in range(len(S))]), emd, F(1) if ctx.symbolic else 1.0)


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("free-n3", free, dict(n=3, lo=-4, hi=4)),
        Task("free-n4", free, dict(n=4, lo=1, hi=8)),
        Task("free-n4-axis", free, dict(n=4, lo=1, hi=8, h="1/2", t0=-3)),
        Task("free-n4-amplitude", free, dict(n=4, lo=1, hi=8, scales=SMALL_LARGE)),
        Task("free-n3-axes", axes, dict(n=3), budget=40 if q else None),
        Task("rays-n8", rays_, dict(n=8), budget=40 if q else None),
        Task("plateaus-3", plateau, dict(runs=3)),
    ]
    if q:
        t += [Task("free-n5", free, dict(n=5, lo=1, hi=8), budget=60)]
    else:
        t += [Task("free-n5", free, dict(n=5, lo=1, hi=8)), Task("free-n4-signed", free, dict(n=4, lo=-4, hi=4)), Task("plateaus-4", plateau, dict(runs=4), weight=2), Task("free-n6", free, dict(n=6, lo=1, hi=8), weight=2)]
    return t
