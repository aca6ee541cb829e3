"""Boundary extension: mirrored extrema cover the signal, keep the originals, add nothing else."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=400),
    bounds=["signals of 5 free samples, 6-8 alternating samples, 10-sample segments; 1-5 mirrored points; parabolic detection on single-parameter segments"],
    outside=["parabolic detection on non-uniform axes", "more than 3 mirrored points (4 on segments)"],
)


def check(ctx, emd, S, T, nbsym, parab):
    n = len(S)
    e = emd.find_extrema(T, S)
    mp, mv, np_, nv = [vals(x) for x in e[:4]]
    if len(mp) + len(np_) < 3:
        ctx.abort("fewer than three extrema")
    res = emd.extract_max_min_spline(T, S)
    up, low, mx, mn = res
    ctx.prove("one envelope value per sample", len(up) == n and len(low) == n, "%s %s" % (len(up), len(low)))
    T0, T1 = T[0], T[n - 1]
    first = mp[0] if ctx.truth(mp[0] < np_[0]) else np_[0]
    last = mp[-1] if ctx.truth(mp[-1] > np_[-1]) else np_[-1]
    added, cands = dict(left={}, right={}), dict(left={}, right={})
    for what, M, op, ov, in (("maxima", mx, mp, mv), ("minima", mn, np_, nv)):
        P, V = vals(M[0]), vals(M[1])
        for i in range(1, len(P)):
            ctx.prove("positions strictly increasing", P[i] > P[i - 1], "%s at %d" % (what, i))
        ctx.prove("extended extrema cover the time axis", ctx.And(P[0] <= T0, P[-1] >= T1), "%s from %s to %s" % (what, P[0], P[-1]))
        # locate the originals: a contiguous block
        k = None
        for off in range(len(P) - len(op) + 1):
            if ctx.truth(ctx.And(*[ctx.near(P[off + i], op[i], 1e-9) for i in range(len(op))])):
                k = off
                break
        ctx.prove("every detected extremum is kept", k is not None, what)
        ctx.prove_close("kept extrema have the signal's values", V[k : k + len(op)], ov)
        left, right = list(zip(P, V))[:k], list(zip(P, V))[k + len(op) :]
        ctx.prove("at most nbsym points are added per side", len(left) <= nbsym and len(right) <= nbsym, "%d %d" % (len(left), len(right)))
        for side, pts, edge, ev in (("left", left[::-1], T0, S[0]), ("right", right, T1, S[n - 1])):
            added[side][what] = pts
            near_first = list(zip(op, ov)) if side == "left" else list(zip(op, ov))[::-1]
            cands[side][what] = (near_first, (edge, ev))
    # one axis per side, the end or the outermost extremum; each kind's extrema beyond it are mirrored, nearest
    # first, as many as nbsym or as there are; the end sample may serve as an extremum of one kind
    for side, axes in (("left", (T0, first)), ("right", (T1, last))):
        opts = []
        for ai, c in enumerate(axes):
            for endkind in (None, "maxima", "minima"):
                if ai == 1 and endkind:
                    continue
                conj = []
                for what in ("maxima", "minima"):
                    src, end = cands[side][what]
                    if ai == 1:
                        src = [x for x in src if not ctx.truth(ctx.near(x[0], c, 1e-9))]
                    if what == endkind:
                        src = [end] + src
                    src, got = src[:nbsym], added[side][what]
                    if len(src) != len(got):
                        conj = None
                        break
                    for (p, v), (tp, tv) in zip(got, src):
                        conj += [ctx.near(p, 2 * c - tp, 1e-7), ctx.near(v, tv, 1e-7)]
                if conj is not None:
                    opts.append(ctx.And(*conj))
        ctx.prove("added points are the mirror images of the nearest extrema, about one axis", ctx.Or(*opts) if opts else False, side)
    ctx.cover("%d+%d" % (len(mp), len(np_)))


def run(ctx, n, nbsyms, mode, det="simple", T=None, bases=None):
    nbsym = ctx.pick(nbsyms, "nbsym")
    emd = emd_cls(ctx)(nbsym=nbsym, extrema_detection=det, spline_kind="linear")
    if mode == "ray":
        S = ray(ctx, n, 1, gap=0.001 if det == "parabol" else 0, bases=bases)
    elif mode == "long":
        S = long_signal(ctx, n, (0, 1, -1))
    elif mode == "ray2":
        S = ray(ctx, n, 2, bases=bases)
    else:
        S = ctx.reals("S", n, 1, 8)
        if mode == "zig":
            zigzag(ctx, S)
    TT = ctx.arr([F(i) for i in (T or range(n))])
    check(ctx, emd, S, TT, nbsym, det == "parabol")


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("free-n5", run, dict(n=5, nbsyms=[1, 2, 3], mode="free")),
        Task("zig-n6", run, dict(n=6, nbsyms=[1, 2, 3], mode="zig")),
        Task("zig-n8", run, dict(n=8, nbsyms=[1, 2, 3, 4], mode="zig")),
        Task("zig-n9", run, dict(n=9, nbsyms=[2, 5], mode="zig")),
        Task("free-n6", run, dict(n=6, nbsyms=[1, 2], mode="free")),
        Task("ray-n10", run, dict(n=10, nbsyms=[1, 2, 4], mode="ray")),
        Task("long-n40", run, dict(n=40, nbsyms=[2, 6, 30], mode="long")),
        Task("long-n150", run, dict(n=150, nbsyms=[2], mode="long")),
        Task("ray2-n9", run, dict(n=9, nbsyms=[2], mode="ray2"), budget=30 if q else None),
        Task("parabol-ray-n7", run, dict(n=7, nbsyms=[1, 2, 3], mode="ray", det="parabol"), path_timeout=20, budget=60 if q else None),
    ]
    if not q:
        t += [
            Task("free-n7", run, dict(n=7, nbsyms=[2], mode="free"), weight=2),
            Task("zig-n11", run, dict(n=11, nbsyms=[1, 2, 3, 4], mode="zig"), weight=2),
            Task("parabol-zig-n5", run, dict(n=5, nbsyms=[2], mode="zig", det="parabol"), weight=2),
            Task("parabol-ray-n10", run, dict(n=10, nbsyms=[2], mode="ray", det="parabol"), weight=2),
        ]
    return t
