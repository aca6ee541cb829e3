"""Sifting: number of siftings per mode follows FIXE / FIXE_H / MAX_ITERATION exactly."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=45, thorough=300),
    bounds=["2-sample signals, arbitrary envelopes and extrema counts, FIXE/FIXE_H 1..3, MAX_ITERATION 2..5, at most 5 siftings", "exact: 5-sample signals, FIXE 1..3"],
    outside=["floating-point rounding", "counts above 3"],
    stubs=["stub layer: find_extrema, extract_max_min_spline, check_imf, end_condition replaced by solver-chosen results"],
)


def siftings(log):
    """per extracted mode: list of (input, upper, lower) siftings"""
    out, cur = [], []
    for x in log:
        if x[0] == "sift":
            cur.append(x)
        elif x[0] == "end" and cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def fixe(ctx, n, counts, max_calls, kind, pairs=FEW, limits=(1, 2), ends=(False, True)):
    F_ = ctx.pick(counts, kind)
    emd = stub_emd(ctx, n, pairs=pairs, max_calls=max_calls, ends=ends, **{kind: F_} if kind == "FIXE" else {"FIXE": F_, "FIXE_H": 1, "MAX_ITERATION": 50})
    S = ctx.reals("S", n, -8, 8)
    keep = vals(S)
    emd.emd(S, max_imf=ctx.pick(limits, "max_imf"))
    per = siftings(emd.log)
    for k, m in enumerate(per):
        if k <= len(emd.imfs):
            ctx.prove_close("each mode is sifted from what the earlier ones leave", m[0][1], [x - sum(emd.imfs[j][i] for j in range(k)) for i, x in enumerate(keep)])
        done = k < len(emd.imfs)
        if done and not any(x[0] == "ext" and x[1] <= 2 for x in emd.log):
            ctx.prove("exactly FIXE siftings per mode", len(m) == F_, "%d != %d" % (len(m), F_))
        ctx.prove("never more than FIXE siftings", len(m) <= F_, "%d > %d" % (len(m), F_))
        check_chain(ctx, m, vals(emd.imfs[k]) if done and len(m) == F_ else None)
    ctx.cover("modes=%d" % len(per))


def check_chain(ctx, m, result):
    """each sifting subtracts the mean of the two envelopes from the previous one"""
    cur = None
    for _, s, up, low in m:
        if cur is not None:
            ctx.prove_close("each sifting starts from the previous one", s, cur)
        cur = [x - (a + b) * F(1, 2) if not isinstance(x, float) else x - 0.5 * (a + b) for x, a, b in zip(s, up, low)]
    if result is not None and cur is not None:
        ctx.prove_close("the mode is the last sifting", result, cur)


def fixe_h(ctx, n, counts, max_calls, iters, pairs=((3, 3), (5, 3), (4, 3))):
    H = ctx.pick(counts, "FIXE_H")
    MI = ctx.pick(iters, "MAX_ITERATION")
    emd = stub_emd(ctx, n, pairs=pairs, max_calls=max_calls, FIXE_H=H, MAX_ITERATION=MI)
    S = ctx.reals("S", n, -8, 8)
    emd.emd(S, max_imf=1)
    log = emd.log
    # extrema count observed after each sifting = last find_extrema before the next sifting / end
    after = []
    for i, x in enumerate(log):
        if x[0] == "sift":
            after.append(None)
        elif x[0] == "ext" and after:
            if after[-1] is None:
                after[-1] = abs(x[1] - x[2]) <= 1
    want = None
    run = 0
    for i, ok in enumerate(after):
        if i == 0:
            continue
        run = run + 1 if ok else 0
        if run >= H:
            want = i + 1
            break
    ctx.prove("never more than MAX_ITERATION siftings", len(after) <= MI, "%d" % len(after))
    if len(after) < MI - 1:
        ctx.prove("sifting stops exactly after FIXE_H consecutive conforming siftings", want == len(after), "%s conforming after %s" % (want, after))
    elif want is not None:
        ctx.prove("sifting does not go past FIXE_H conforming siftings", want >= len(after), "%s of %s" % (want, after))
    check_chain(ctx, [x for x in log if x[0] == "sift"], vals(emd.imfs[0]) if len(emd.imfs) else None)


def maxit(ctx, n, iters, max_calls, cfgs, pairs=((5, 3), (3, 3)), verdicts=(True, False), at_least=0):
    """whatever the verdicts, sifting of one mode ends"""
    MI = ctx.pick(iters, "MAX_ITERATION")
    emd = stub_emd(ctx, n, pairs=pairs, verdicts=verdicts, max_calls=max_calls, MAX_ITERATION=MI, **ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -8, 8)
    emd.emd(S, max_imf=1)
    ns = len([x for x in emd.log if x[0] == "sift"])
    ctx.prove("never more than MAX_ITERATION siftings", ns <= MI, "%d > %d" % (ns, MI))
    if at_least:
        ctx.prove("sifting goes on as long as no rule stops it", ns >= at_least, "%d < %d" % (ns, at_least))
    check_chain(ctx, [x for x in emd.log if x[0] == "sift"], vals(emd.imfs[0]) if len(emd.imfs) else None)


def exact(ctx, n, counts, kinds, cfg):
    """oracle: iterate  x -> x - (upper+lower)/2  with the class's own envelopes"""
    EMD = emd_cls(ctx)
    k = ctx.pick(counts, "FIXE")
    kind = ctx.pick(kinds, "spline")
    S = ctx.reals("S", n, -4, 4)
    zigzag(ctx, S)
    emd = EMD(FIXE=k, spline_kind=kind, **cfg)
    emd.emd(S.copy(), max_imf=1)
    ref = EMD(FIXE=k, spline_kind=kind, **cfg)
    T = ctx.np.arange(0, n, dtype=S.dtype)
    x = S.copy()
    for i in range(k):
        e = ref.find_extrema(T, x)
        if len(e[0]) + len(e[2]) <= 2:
            ctx.prove("a proto-mode that loses its oscillation is the trend", len(emd.imfs) == 0, "%d" % len(emd.imfs))
            return
        up, low = ref.extract_max_min_spline(T, x)[:2]
        x = ctx.arr([x[i] - 0.5 * (up[i] + low[i]) for i in range(n)])
    ctx.prove("one mode extracted", len(emd.imfs) == 1, "%d" % len(emd.imfs))
    ctx.prove_close("the mode is the FIXE-fold sifting of the signal", vals(emd.imfs[0]), vals(x))
    ctx.observe("imf", emd.imfs)


def tasks(tier):
    q = tier == "quick"
    return [
        Task("fixe-stub", fixe, dict(n=2, counts=[1, 2, 3], max_calls=4 if q else 6, kind="FIXE")),
        Task("fixe-over-fixe_h", fixe, dict(n=2, counts=[2], max_calls=4, kind="both")),
        Task("fixe_h-stub", fixe_h, dict(n=2, counts=[1, 2, 3], max_calls=4 if q else 6, iters=[50])),
        Task("fixe_h-maxit", fixe_h, dict(n=2, counts=[1, 2], max_calls=5, iters=[2, 3, 4])),
        Task("fixe-many", fixe, dict(n=2, counts=[5, 11, 20], max_calls=99, kind="FIXE", pairs=((3, 0),), limits=[1], ends=[False])),
        Task("fixe-modes", fixe, dict(n=2, counts=[1], max_calls=99, kind="FIXE", pairs=((3, 0),), limits=[12, 35], ends=[False])),
        Task("fixe-modes-2", fixe, dict(n=2, counts=[2], max_calls=99, kind="FIXE", pairs=((3, 0),), limits=[9], ends=[False])),
        Task("fixe_h-deep", fixe_h, dict(n=2, counts=[2, 3], max_calls=7 if q else 9, iters=[50], pairs=((3, 3), (5, 3)))),
        Task("fixe_h-signs", fixe_h, dict(n=2, counts=[1, 2], max_calls=4 if q else 6, iters=[50], pairs=((3, 3), (3, 5), (3, 4)))),
        Task("fixe_h-many", fixe_h, dict(n=2, counts=[5, 10, 12, 20], max_calls=99, iters=[60], pairs=((3, 3),))),
        Task("default-many", maxit, dict(n=2, iters=[26], max_calls=99, cfgs=[dict()], pairs=((3, 3),), verdicts=[False], at_least=24)),
        Task("maxit", maxit, dict(n=2, iters=[2, 3, 4], max_calls=6, cfgs=[dict(), dict(FIXE=9), dict(FIXE_H=9)])),
        Task("exact-n5", exact, dict(n=5, counts=[1, 2] if q else [1, 2, 3], kinds=["cubic"], cfg={})),
        Task("exact-kinds-n5", exact, dict(n=5, counts=[1], kinds=KINDS, cfg={})),
        Task("exact-n7", exact, dict(n=7, counts=[1], kinds=["cubic"], cfg={})),
    ]
