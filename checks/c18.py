"""CEEMDAN: complete reconstruction, limits, amplitude equivariance."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=60, thorough=300),
    bounds=["signals of 2-5 samples; 1-3 trials; every inner decomposition arbitrary (solver-chosen rows) or a linear stand-in; at most 4 components"],
    outside=["constant signals (their standard deviation is zero)", "floating-point rounding"],
    stubs=["inner EMD: arbitrary rows, or a linear smoother", "random streams: arbitrary draws"],
)
SIGS = [[1, -1, 1, -1], [2, 0, 2, 0], [3, 1, 1, 3], [0, 0, 4, 4, 2, 2]]


def wild(ctx, n, splits, maxcalls=12):
    """inner EMD with arbitrary modes; mode + remainder add up when one mode is asked for (contract of EMD)"""

    class Wild:
        calls = 0

        def emd(self, S, T=None, max_imf=-1):
            self.calls += 1
            if self.calls > maxcalls:
                ctx.abort("more decompositions than the bound")
            c = self.calls
            k = ctx.pick(splits, "modes")
            ms = [ctx.reals("m%d_%d_" % (c, j), n, -4, 4) for j in range(k if max_imf < 0 else min(k, max_imf))]
            if max_imf < 0 and ms:
                ctx.assume(ms[0][0] - ms[0][1] >= F(1, 8))
            r = S
            for m in ms:
                r = r - m
            return ctx.np.vstack(ms + [r])

        __call__ = emd

    return Wild()


def signal(ctx, n, mode):
    if mode == "free":
        return ctx.reals("S", n, -4, 4)
    b = [s for s in SIGS if len(s) == n] or [s[:n] for s in SIGS[:3]]
    s = ctx.pick(b, "signal")
    if mode == "amp":
        a = ctx.real("a", F(1, 8), 64)
        o = ctx.real("o", -8, 8)
        return ctx.arr([a * x + o for x in s])
    return ctx.arr([F(x) for x in s])


def reconstruct(ctx, n, mode, trials, cfgs, max_imfs, inner="wild", splits=(1, 2), withT=(False,), how=("ceemdan",)):
    use(ctx)
    nt = ctx.pick(trials, "trials")
    cfg = ctx.pick(cfgs, "cfg")
    m = ctx.pick(max_imfs, "max_imf")
    emd = wild(ctx, n, splits) if inner == "wild" else SmoothEMD(2)
    c = ctx.mod("PyEMD.CEEMDAN").CEEMDAN(trials=nt, ext_EMD=emd, parallel=False, seed=1, **cfg)
    lively(ctx, 1, nt, n)
    S = signal(ctx, n, mode)
    if mode == "free":
        ctx.assume(ctx.Or(*[S[i] - S[i + 1] >= F(1, 8) for i in range(n - 1)]))
    keep = vals(S)
    T = ctx.arr([F(2 * i + 1) for i in range(n)]) if ctx.pick(withT, "T") else None
    out = c(S, T, m) if ctx.pick(how, "entry") == "call" else c.ceemdan(S, T, max_imf=m)
    ctx.observe("out", out)
    ctx.prove("one column per sample", len(out.shape) == 2 and out.shape[1] == n, str(out.shape))
    ctx.prove_close("sum of components equals the signal", sum_rows(ctx, out, n), keep, F(1, 10**5))
    imfs, res = c.get_imfs_and_residue()
    ctx.prove_close("accessor returns the output", rows(imfs), rows(out), F(1, 10**7))
    ctx.prove_close("nothing is left over", vals(res), [0] * n, F(1, 10**5))
    if m > 0:
        ctx.prove("no more modes than max_imf (plus the remainder)", len(out) <= m + 1, "%d rows for max_imf=%d" % (len(out), m))
    ctx.prove_close("the input signal is not modified", vals(S), keep, 0)
    ctx.cover("rows=%d" % len(out))


def amplitude(ctx, n, trials, cfgs, max_imfs, scales):
    """a rescaled signal gives rescaled components (same seed)"""
    use(ctx)
    nt = ctx.pick(trials, "trials")
    cfg = ctx.pick(cfgs, "cfg")
    m = ctx.pick(max_imfs, "max_imf")
    sc = F(ctx.pick(scales, "scale"))
    sc = sc if ctx.symbolic else float(sc)
    b = ctx.pick([s for s in SIGS if len(s) == n], "signal")
    C = ctx.mod("PyEMD.CEEMDAN").CEEMDAN
    S1 = ctx.arr([F(x) for x in b])
    S2 = ctx.arr([(F(x) if ctx.symbolic else x) * sc for x in b])
    lively(ctx, 1, nt, n)
    outs = []
    for S in (S1, S2):
        c = C(trials=nt, ext_EMD=SmoothEMD(2), parallel=False, seed=1, **cfg)
        outs.append(c.ceemdan(S, max_imf=m))
    a, z = outs
    ctx.prove("amplitude does not change the number of components", len(a) == len(z), "%d %d" % (len(a), len(z)))
    for k in range(len(a)):
        ctx.prove_close("components scale with the signal", vals(z[k]), [x * sc for x in vals(a[k])], F(1, 10**5) * F(abs(sc)))


def tasks(tier):
    q = tier == "quick"
    NT = dict(range_thr=0, total_power_thr=0)
    t = [
        Task("wild-n2", reconstruct, dict(n=2, mode="fixed", trials=[1, 2], cfgs=[NT], max_imfs=[1, 2])),
        Task("wild-n3", reconstruct, dict(n=3, mode="fixed", trials=[1], cfgs=[NT, dict(NT, beta_progress=False)], max_imfs=[1, 2, 3]), budget=60 if q else None),
        Task("wild-amp", reconstruct, dict(n=4, mode="amp", trials=[1], cfgs=[dict(NT, beta_progress=False)], max_imfs=[1, 2]), budget=60 if q else None),
        Task("wild-free", reconstruct, dict(n=2, mode="free", trials=[1, 2], cfgs=[dict(NT, beta_progress=False)], max_imfs=[1]), budget=60 if q else None),
        Task("wild-thr", reconstruct, dict(n=2, mode="fixed", trials=[1], cfgs=[dict(range_thr=2, beta_progress=False), dict(total_power_thr=2, beta_progress=False)], max_imfs=[-1, 2], splits=[1, 0]), budget=60 if q else None),
        Task("wild-limit", reconstruct, dict(n=2, mode="fixed", trials=[1], cfgs=[dict(NT, beta_progress=False, max_imf=2)], max_imfs=[-1, 5]), budget=60 if q else None),
        Task("smooth-T", reconstruct, dict(n=4, mode="amp", trials=[1, 2], cfgs=[NT], max_imfs=[1, 2, 3], inner="smooth", withT=[False, True], how=["ceemdan", "call"]), budget=60 if q else None),
        Task("amplitude", amplitude, dict(n=4, trials=[1, 2], cfgs=[NT, dict(epsilon=0.5, **NT)], max_imfs=[1, 2], scales=[2, "1/1024", 4096]), budget=60 if q else None),
    ]
    if not q:
        t += [
            Task("wild-n2-3", reconstruct, dict(n=2, mode="fixed", trials=[3], cfgs=[NT], max_imfs=[1, 2]), weight=2),
            Task("wild-free-n3", reconstruct, dict(n=3, mode="free", trials=[1], cfgs=[NT], max_imfs=[1, 2]), weight=2),
            Task("smooth-6", reconstruct, dict(n=6, mode="amp", trials=[2, 3], cfgs=[NT], max_imfs=[2, 4], inner="smooth"), weight=2),
        ]
    return t
