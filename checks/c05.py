"""Default stopping rule and trends."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=60, thorough=300),
    bounds=["driver: 2-sample signals with arbitrary counts and verdicts, at most 3 siftings", "criteria: arrays of 2-3 samples, arbitrary thresholds", "trends: signals of 5-6 samples with at most two extrema"],
    outside=["floating-point rounding; inputs where a criterion divides by zero"],
    stubs=["driver layer: find_extrema, extract_max_min_spline, check_imf, end_condition replaced by solver-chosen results"],
)


def driver(ctx, n, max_calls, pairs=((3, 3), (5, 3), (4, 3)), verdicts=(True, False)):
    """a mode is accepted exactly when the convergence test passes and
    extrema and zero crossings differ by at most one"""
    emd = stub_emd(ctx, n, pairs=pairs, verdicts=verdicts, max_calls=max_calls, MAX_ITERATION=50)
    S = ctx.reals("S", n, -8, 8)
    emd.emd(S, max_imf=1)
    log = emd.log
    after = []
    for x in log:
        if x[0] == "sift":
            after.append([None, None])
        elif x[0] == "ext" and after and after[-1][0] is None:
            after[-1][0] = abs(x[1] - x[2]) <= 1
        elif x[0] == "check" and after:
            after[-1][1] = x[1]
    for i, (zc, conv) in enumerate(after):
        last = i == len(after) - 1
        if last:
            ctx.prove("an accepted mode satisfies both criteria", bool(zc) and bool(conv), str(after))
        else:
            ctx.prove("sifting goes on only while a criterion fails", not (zc and conv), str(after))
    ctx.cover("siftings=%d" % len(after))


def criteria(ctx, n, cfgs, bound=3):
    """the convergence verdict is the documented disjunction"""
    emd = emd_cls(ctx)(**ctx.pick(cfgs, "cfg"))
    new = ctx.reals("x", n, -bound, bound)
    old = ctx.reals("y", n, -bound, bound)
    mx = ctx.reals("m", 2, -bound, bound)
    mn = ctx.reals("k", 2, -bound, bound)
    np = ctx.np
    for i in range(n):
        ctx.assume(new[i] != 0)
    ctx.assume(old[0] != old[1])
    eMax = np.array([np.array([0.0, 1.0]), mx])
    eMin = np.array([np.array([0.0, 1.0]), mn])
    got = ctx.truth(emd.check_imf(new, old, eMax, eMin))
    bad = ctx.Or(mx[0] < 0, mx[1] < 0, mn[0] > 0, mn[1] > 0)
    e = sum((new[i] * new[i] for i in range(1, n)), new[0] * new[0])
    if ctx.truth(bad):
        ctx.prove("negative maxima or positive minima are never a mode", not got)
        return
    if ctx.truth(e < 1e-10):
        ctx.prove("a vanishing proto-mode is not accepted", not got)
        return
    d = [new[i] - old[i] for i in range(n)]
    dd = sum((x * x for x in d[1:]), d[0] * d[0])
    rng = None
    hi = lo = old[0]
    for i in range(1, n):
        if ctx.truth(old[i] > hi):
            hi = old[i]
        if ctx.truth(old[i] < lo):
            lo = old[i]
    svar = dd / (hi - lo)
    std = sum(((d[i] / new[i]) * (d[i] / new[i]) for i in range(1, n)), (d[0] / new[0]) * (d[0] / new[0]))
    oo = sum((old[i] * old[i] for i in range(1, n)), old[0] * old[0])
    en = dd / oo
    want = ctx.Or(svar < emd.svar_thr, std < emd.std_thr, en < emd.energy_ratio_thr)
    ctx.prove("accepted iff scaled variance, standard deviation or energy ratio is below its threshold", ctx.Iff(want, got))


def ending(ctx, n, k, cfgs):
    cfg = ctx.pick(cfgs, "cfg")
    emd = emd_cls(ctx)(**cfg)
    S = ctx.reals("S", n, -3, 3)
    IMF = [ctx.reals("I%d_" % i, n, -3, 3) for i in range(k)]
    M = ctx.np.vstack(IMF) if k else ctx.np.empty((0, n))
    got = emd.end_condition(S, M)
    r = []
    for i in range(n):
        x = S[i]
        for m in IMF:
            x = x - m[i]
        r.append(x)
    rt, pt = cfg.get("range_thr", 0.001), cfg.get("total_power_thr", 0.005)
    small = ctx.And(*[a - b < rt for a in r for b in r])
    # sum of absolute values < pt  <=>  every signed sum < pt
    import itertools

    pw = ctx.And(*[sum((x * s for x, s in zip(r[1:], sg[1:])), r[0] * sg[0]) < pt for sg in itertools.product((1, -1), repeat=n)])
    ctx.prove("the decomposition ends iff the remainder is tiny in range or in total", ctx.Iff(got, ctx.Or(small, pw)))


def trend(ctx, n, cfgs, dets, kinds=("cubic",), max_imfs=(-1, 1)):
    """a signal with at most two extrema is returned unchanged as the trend"""
    emd = emd_cls(ctx)(extrema_detection=ctx.pick(dets, "detection"), spline_kind=ctx.pick(kinds, "kind"), **ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -4, 4)
    ext = ref_extrema(ctx, vals(S))
    if len(ext) > 2:
        ctx.abort("more than two extrema")
    keep = vals(S)
    out = emd.emd(S, max_imf=ctx.pick(max_imfs, "max_imf"))
    imfs, res = emd.get_imfs_and_residue()
    ctx.prove("a trend has no modes", len(imfs) == 0, "%d modes" % len(imfs))
    ctx.prove_close("a trend is returned unchanged", vals(res), keep, F(1, 10**9))
    if len(out):
        ctx.prove("a trend is the only row", len(out) == 1, "%d" % len(out))
        ctx.prove_close("a trend is returned unchanged", vals(out[0]), keep, F(1, 10**9))


def long_trend(ctx, n):
    """a long rise, or rise and fall, with free steps"""
    emd = emd_cls(ctx)(**ctx.pick([{}, dict(FIXE=2), dict(FIXE_H=2)], "cfg"))
    turn = ctx.pick([0, 3, n // 2, n], "turning point")
    x, out = F(0), []
    for i in range(n):
        out.append(x)
        d = ctx.real("d%d" % i, F(1, 8), 2) if i % (n // 4) == 1 else F(1 + i % 3)
        x = x + d if i < turn else x - d
    S = ctx.arr(out)
    keep = vals(S)
    res = emd.emd(S)
    ctx.prove("a trend has no modes", len(emd.imfs) == 0, "%d modes" % len(emd.imfs))
    ctx.prove("a trend is the only row", len(res) == 1, "%d" % len(res))
    ctx.prove_close("a trend is returned unchanged", vals(res[0]), keep, F(1, 10**9))


def oscillates(ctx, n, cfgs):
    """a signal with more than two extrema does yield a mode (fixed sifting)"""
    emd = emd_cls(ctx)(**ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -4, 4)
    ext = ref_extrema(ctx, vals(S))
    if len(ext) <= 2:
        ctx.abort("at most two extrema")
    emd.emd(S, max_imf=1)
    ctx.prove("an oscillating signal yields a mode", len(emd.imfs) >= 1)


def tasks(tier):
    q = tier == "quick"
    return [
        Task("driver", driver, dict(n=2, max_calls=3 if q else 5)),
        Task("driver-signs", driver, dict(n=2, max_calls=3 if q else 5, pairs=((3, 3), (3, 5), (3, 4)))),
        Task("driver-deep", driver, dict(n=2, max_calls=12, pairs=((3, 3), (4, 7)), verdicts=[True])),
        Task("criteria-n2", criteria, dict(n=2, cfgs=[{}, dict(svar_thr=0, std_thr=0, energy_ratio_thr=0.5), dict(svar_thr=0.5, std_thr=0, energy_ratio_thr=0), dict(svar_thr=0, energy_ratio_thr=0, std_thr=1)]), budget=60 if q else None),
        Task("ending", ending, dict(n=2, k=2, cfgs=[{}, dict(range_thr=0.5, total_power_thr=0), dict(range_thr=0, total_power_thr=1.5)])),
        Task("ending-n3", ending, dict(n=3, k=1, cfgs=[{}, dict(range_thr=0.5, total_power_thr=2)])),
        Task("ending-none", ending, dict(n=3, k=0, cfgs=[{}])),
        Task("trend-n5", trend, dict(n=5, cfgs=[dict(), dict(FIXE=1), dict(FIXE_H=1)], dets=["simple"])),
        Task("trend-parabol-n5", trend, dict(n=5 if not q else 4, cfgs=[dict()], dets=["parabol"])),
        Task("trend-n6", trend, dict(n=6, cfgs=[dict()], dets=["simple"], max_imfs=[-1])),
        Task("trend-n100", long_trend, dict(n=100)),
        Task("oscillates-n5", oscillates, dict(n=5, cfgs=[dict(FIXE=1)])),
    ]
