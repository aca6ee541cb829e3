"""max_imf: the limit is respected and only truncates the decomposition."""
from .common import *

META = dict(
    mods=EMD_MODS, budget=dict(quick=45, thorough=300),
    bounds=["2-sample signals with arbitrary extrema counts, envelopes and verdicts, limits 1..3, at most 4 siftings", "exact 6/7-sample signals, FIXE=1, limits 1..2"],
    outside=["floating-point rounding", "limits above 3"],
    stubs=["stub layer: find_extrema, extract_max_min_spline, check_imf, end_condition are arbitrary but deterministic functions of what they are given"],
)


def limit(ctx, n, limits, cfgs, max_calls, pairs, ends=(False, True), verdicts=(True, False), full=False):
    emd = stub_emd(ctx, n, max_calls=max_calls, pairs=pairs, ends=ends, verdicts=verdicts, **ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -8, 8)
    m = ctx.pick(limits, "max_imf")
    out = emd.emd(S, max_imf=m)
    imfs, res = emd.get_imfs_and_residue()
    ctx.prove("no more modes than max_imf", len(imfs) <= m, "%d > %d" % (len(imfs), m))
    ctx.prove("no more rows than max_imf + 1", len(out) <= m + 1, "%d rows" % len(out))
    if full:
        ctx.prove("a signal with more modes yields exactly max_imf of them", len(imfs) == m, "%d of %d" % (len(imfs), m))
    ctx.cover("imfs=%d of %d" % (len(imfs), m))


def unlimited(ctx, n, cfgs, max_calls, pairs):
    """without a limit the decomposition goes on until its own stopping rule fires"""
    emd = stub_emd(ctx, n, max_calls=max_calls, pairs=pairs, **ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -8, 8)
    m = ctx.pick([-1, None], "max_imf")
    emd.emd(S) if m is None else emd.emd(S, max_imf=m)
    rule = [i for i, x in enumerate(emd.log) if (x[0] == "end" and x[1]) or (x[0] == "ext" and x[1] <= 2)]
    ctx.prove("stopped by its own rule", len(rule) > 0, str([x[:2] for x in emd.log]))
    over = [i for i, x in enumerate(emd.log) if x[0] == "end" and x[1]]
    ctx.prove("nothing is sifted once the rule has fired", not over or not any(x[0] == "sift" for x in emd.log[over[0] :]))


def prefix_stub(ctx, n, limits, cfgs, max_calls):
    cfg = ctx.pick(cfgs, "cfg")
    S = ctx.reals("S", n, -8, 8)
    m = ctx.pick(limits, "max_imf")
    tab = Table()
    a = stub_emd(ctx, n, pairs=((3, 3), (2, 3), (5, 3)), table=tab, max_calls=max_calls, **cfg)
    a.emd(S.copy(), max_imf=m)
    b = stub_emd(ctx, n, pairs=((3, 3), (2, 3), (5, 3)), table=tab, max_calls=max_calls, **cfg)
    b.emd(S.copy())
    compare(ctx, a.imfs, b.imfs, m)


def compare(ctx, lim, full, m):
    ctx.prove("no more modes than max_imf", len(lim) <= m, "%d > %d" % (len(lim), m))
    ctx.prove("limited modes are the first modes of the full decomposition", len(lim) <= len(full), "%d > %d" % (len(lim), len(full)))
    for k in range(len(lim)):
        ctx.prove_close("limited modes are the first modes of the full decomposition", vals(lim[k]), vals(full[k]))
    ctx.prove("the limit does not stop earlier than needed", len(lim) >= min(m, len(full)) - 1, "%d of %d with limit %d" % (len(lim), len(full), m))
    ctx.cover("lim=%d full=%d" % (len(lim), len(full)))


def prefix_exact(ctx, n, limits, cfg, rays=0, bases=None):
    EMD = emd_cls(ctx)
    S = ray(ctx, n, rays, bases=bases) if rays else ctx.reals("S", n, -4, 4)
    if not rays:
        zigzag(ctx, S)
    m = ctx.pick(limits, "max_imf")
    a, b = EMD(**cfg), EMD(**cfg)
    a.emd(S.copy(), max_imf=m)
    b.emd(S.copy(), max_imf=m + 1)
    compare(ctx, a.imfs, b.imfs, m)


def tasks(tier):
    q = tier == "quick"
    m = 2 if q else 4
    return [
        Task("limit-fixe", limit, dict(n=2, limits=[1, 2, 3], pairs=FEW, cfgs=[dict(FIXE=1), dict(FIXE=2)], max_calls=m + 1)),
        Task("limit-fixe_h", limit, dict(n=2, limits=[1, 2], pairs=PAIRS, cfgs=[dict(FIXE_H=1, MAX_ITERATION=4)], max_calls=m)),
        Task("limit-default", limit, dict(n=2, limits=[1, 2], pairs=PAIRS, cfgs=[dict(MAX_ITERATION=3)], max_calls=m)),
        Task("unlimited", unlimited, dict(n=2, pairs=FEW, cfgs=[dict(FIXE=1)], max_calls=m + 2)),
        Task("unlimited-default", unlimited, dict(n=2, pairs=((3, 3), (2, 3)), cfgs=[dict(MAX_ITERATION=3)], max_calls=m)),
        Task("prefix-stub-fixe", prefix_stub, dict(n=2, limits=[1, 2, 3], cfgs=[dict(FIXE=1), dict(FIXE=2)], max_calls=m + 2)),
        Task("prefix-stub-default", prefix_stub, dict(n=2, limits=[1, 2], cfgs=[dict(MAX_ITERATION=3)], max_calls=m + 1)),
        Task("prefix-stub-fixe_h", prefix_stub, dict(n=2, limits=[1, 2], cfgs=[dict(FIXE_H=1, MAX_ITERATION=9), dict(FIXE_H=2, MAX_ITERATION=9)], max_calls=m + 3)),
        Task("limit-many", limit, dict(n=2, limits=[4, 5, 10, 33, 70], pairs=((3, 3),), cfgs=[dict(FIXE=1), dict(FIXE_H=1), {}], max_calls=999, ends=[False], verdicts=[True], full=True)),
        Task("prefix-exact-n5", prefix_exact, dict(n=5, limits=[1], cfg=dict(FIXE=1, range_thr=0, total_power_thr=0)), budget=20 if q else None),
        Task("prefix-ray-n10", prefix_exact, dict(n=10, limits=[1, 2], rays=1, cfg=dict(FIXE=1, range_thr=0, total_power_thr=0))),
        Task("prefix-ray-default-n10", prefix_exact, dict(n=10, limits=[1], rays=1, bases=[1], cfg=dict(MAX_ITERATION=4)), path_timeout=20),
    ]
