"""CEEMDAN computes the complete ensemble with adaptive noise, stage by stage."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=60, thorough=300),
    bounds=["signals of 3-4 samples, 1-3 trials, up to 3 stages; any noise draws; inner EMD a linear smoother with 1-3 modes per noise realisation"],
    outside=["constant signals and constant noise realisations", "floating-point rounding"],
    stubs=["inner EMD replaced by a deterministic smoother (the stages must combine whatever EMD returns in the documented way)"],
)


class CountedSmooth(SmoothEMD):
    """number of modes of a noise realisation chosen by the solver; logs calls"""

    ctx = None

    def __init__(self, ctx, levels, stop=()):
        self.ctx_pick, self.lv, self.log, self.stop = ctx.pick, levels, [], stop

    def emd(self, S, T=None, max_imf=-1):
        if max_imf < 0:
            self.levels = self.ctx_pick(self.lv, "modes of the noise")
        else:
            self.levels = max_imf
        r = SmoothEMD.emd(self, S, T, max_imf)
        self.log.append((max_imf, vals(S), None if T is None else vals(T), rows(r)))
        return r

    __call__ = emd


class SignOne(CountedSmooth):
    """a signal that does not fall at first does not oscillate: it is its own local mean"""

    def emd(self, S, T=None, max_imf=-1):
        if max_imf < 0 or S[0] > S[1]:
            return CountedSmooth.emd(self, S, T, max_imf)
        self.log.append((max_imf, vals(S), None if T is None else vals(T), [vals(S)]))
        return S.reshape((1, -1)) * 1.0

    __call__ = emd


def smooth(x):
    n = len(x)
    return [0.25 * x[(i - 1) % n] + 0.5 * x[i] + 0.25 * x[(i + 1) % n] for i in range(n)]


def std(ctx, x):
    return ctx.np.std(ctx.arr(x))


def stages(ctx, n, trials, cfgs, max_imfs, levels, base, kinds=("normal",), withT=(False,), one=False, fixed=None, signs=False):
    use(ctx)
    nt = ctx.pick(trials, "trials")
    cfg = ctx.pick(cfgs, "cfg")
    m = ctx.pick(max_imfs, "max_imf")
    kind = ctx.pick(kinds, "kind")
    if not signs:
        lively(ctx, 1, nt, n, kind)
    else:
        # noise of either direction, of any size
        rs = ctx.np.random.RandomState(1)
        for _ in range(nt):
            x = rs.normal(size=n) if kind == "normal" else rs.uniform(size=n)
            ctx.assume(ctx.Or(x[0] - x[1] >= F(1, 16), x[1] - x[0] >= F(1, 16)))
    if fixed is not None and ctx.symbolic:
        # only the first samples of a realisation are free
        rs = ctx.np.random.RandomState(1)
        for _ in range(nt):
            x = rs.normal(size=n) if kind == "normal" else rs.uniform(size=n)
            for i in range(fixed, n):
                ctx.assume(x[i] == F((-1) ** i * (i + 1), 4))
    inner = SignOne(ctx, levels) if one else CountedSmooth(ctx, levels)
    osc = lambda x: not one or ctx.truth(x[0] > x[1])
    c = ctx.mod("PyEMD.CEEMDAN").CEEMDAN(trials=nt, ext_EMD=inner, parallel=False, seed=1, noise_kind=kind, **cfg)
    b = ctx.pick(base, "signal")
    S = ctx.arr([F(x) for x in b])
    T = ctx.arr([F(2 * i + 1) for i in range(n)]) if ctx.pick(withT, "T") else None
    out = c.ceemdan(S, T, max_imf=m)
    noise = [x for x in inner.log if x[0] < 0]
    ctx.prove("every noise realisation is decomposed completely, once", len(noise) == nt, "%d" % len(noise))
    for x in inner.log:
        if x[0] >= 0 and T is not None and x[2] is not None:
            ctx.prove_close("the time axis reaches the decompositions of the signal", x[2], vals(T), 0)
    if T is not None:
        k = len([x for x in inner.log if x[0] >= 0 and x[2] is None])
        ctx.prove("the time axis reaches the decompositions of the signal", k <= m, "%d without it" % k)  # one test of the remainder per stage
    eps = cfg.get("epsilon", 0.005)
    s = std(ctx, [(F(x) if ctx.symbolic else float(x)) for x in b])
    sig = [(F(x) if ctx.symbolic else float(x)) / s for x in b]
    E = []
    for _, _, _, r in noise:
        d = std(ctx, r[0]) if cfg.get("beta_progress", True) else 1
        E.append([[v / d for v in row] for row in r])
    # stage 1: mean of the first modes of signal + eps * first noise mode
    first = [0] * n
    for t in range(nt):
        x = [a + eps * e for a, e in zip(sig, E[t][0])]
        md = [a - z for a, z in zip(x, smooth(x))] if osc(x) else x
        first = [a + z / nt for a, z in zip(first, md)]
    comps = [first]
    r = [a - z for a, z in zip(sig, first)]
    while len(comps) < m and osc(r):
        beta = eps * std(ctx, r)
        k = len(comps)
        mean = [0] * n
        for t in range(nt):
            x = [a + (beta * e) for a, e in zip(r, E[t][k])] if len(E[t]) > k else r
            mean = [a + z / nt for a, z in zip(mean, smooth(x) if osc(x) else x)]
        comps.append([a - z for a, z in zip(r, mean)])
        r = mean
    tot = [0] * n
    for x in comps:
        tot = [a + z for a, z in zip(tot, x)]
    comps.append([a - z for a, z in zip(sig, tot)])
    ctx.prove("one component per stage, then the remainder", len(out) == len(comps), "%d != %d" % (len(out), len(comps)))
    for k in range(len(comps)):
        ctx.prove_close("stage %s is the documented ensemble average" % ("1" if k == 0 else ">1" if k < len(comps) - 1 else "remainder"), vals(out[k]), [x * s for x in comps[k]], F(1, 10**5))


class OneMode(SmoothEMD):
    """arbitrary verdict whether a remainder still oscillates"""

    def __init__(self, ctx):
        self.pick = ctx.pick
        self.log = []
        self.n = 0

    def emd(self, S, T=None, max_imf=-1):
        self.n += 1
        if max_imf >= 1 and self.pick((2, 1), "oscillates") == 1:
            self.log.append((max_imf, vals(S), 1))
            return S.reshape((1, -1)) * 1.0
        self.levels = 1
        r = SmoothEMD.emd(self, S, T, max_imf)
        self.log.append((max_imf, vals(S), len(r)))
        return r

    __call__ = emd


def ending(ctx, n, k, cfgs, max_imfs):
    """end_condition is the documented disjunction"""
    use(ctx)
    cfg = ctx.pick(cfgs, "cfg")
    inner = OneMode(ctx)
    c = ctx.mod("PyEMD.CEEMDAN").CEEMDAN(trials=1, ext_EMD=inner, parallel=False, **cfg)
    S = ctx.reals("S", n, -3, 3)
    M = [ctx.reals("I%d_" % i, n, -3, 3) for i in range(k)]
    m = ctx.pick(max_imfs, "max_imf")
    got = c.end_condition(S, ctx.np.vstack(M), m)
    r = []
    for i in range(n):
        x = S[i]
        for row in M:
            x = x - row[i]
        r.append(x)
    if 0 < m <= k:
        ctx.prove("stops at max_imf", got)
        return
    trend = False
    if inner.log:
        trend = inner.log[-1][2] == 1
        ctx.prove_close("the remainder is what is tested", inner.log[-1][1], r)
    rt, pt = cfg.get("range_thr", 0.01), cfg.get("total_power_thr", 0.05)
    import itertools

    small = ctx.And(*[a - b < rt for a in r for b in r])
    pw = ctx.And(*[sum((x * g for x, g in zip(r[1:], sg[1:])), r[0] * sg[0]) < pt for sg in itertools.product((1, -1), repeat=n)])
    if not inner.log:
        ctx.prove("a remainder that is not tiny is tested for oscillation", ctx.Or(small, pw))
    ctx.prove("ends iff the remainder does not oscillate or is tiny", ctx.Iff(got, ctx.Or(trend, small, pw)))


def tasks(tier):
    q = tier == "quick"
    NT = dict(range_thr=0, total_power_thr=0)
    B4 = [[1, -1, 1, -1], [2, 0, 0, 2]]
    t = [
        Task("one-stage", stages, dict(n=4, trials=[1, 2, 3], cfgs=[NT, dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[1], levels=[1, 2], base=B4), budget=40 if q else None),
        Task("two-stages", stages, dict(n=4, trials=[1], cfgs=[dict(NT, epsilon=0.5)], max_imfs=[2], levels=[1, 2], base=B4), budget=60 if q else None),
        Task("two-stages-raw", stages, dict(n=4, trials=[1, 2], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[2], levels=[1, 2], base=B4[:1]), budget=60 if q else None),
        Task("uneven", stages, dict(n=3, trials=[2], cfgs=[dict(NT, epsilon=0.25, beta_progress=False, noise_scale=2)], max_imfs=[2], levels=[1, 0], base=[[1, -1, 0]], kinds=["normal", "uniform"], withT=[True]), budget=60 if q else None),
        Task("three-stages", stages, dict(n=3, trials=[1], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[3], levels=[1, 2, 3], base=[[2, 0, -2]]), budget=60 if q else None),
        Task("five-stages", stages, dict(n=3, trials=[1], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[4], levels=[1, 4], base=[[2, 0, -2]]), budget=60 if q else None),
        Task("four-stages", stages, dict(n=3, trials=[1], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[4], levels=[4], base=[[2, 0, -2], [1, -1, 3]], fixed=0), budget=60 if q else None),
        Task("trial-without-waves", stages, dict(n=3, trials=[1, 2], cfgs=[dict(NT, epsilon=4, beta_progress=False)], max_imfs=[2], levels=[2], base=[[1, 0, -1]], one=True, signs=True), budget=60 if q else None),
        Task("not-oscillating", stages, dict(n=3, trials=[1, 2], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[2], levels=[1, 2], base=[[2, 0, -2]], one=True, withT=[False, True]), budget=60 if q else None),
        Task("many-trials", stages, dict(n=2, trials=[12], cfgs=[dict(NT, epsilon=0.5, beta_progress=False)], max_imfs=[1, 2], levels=[2], base=[[2, -2]]), budget=60 if q else None),
        Task("ending", ending, dict(n=2, k=2, cfgs=[{}, dict(range_thr=0.5, total_power_thr=0), dict(range_thr=0, total_power_thr=1.5)], max_imfs=[-1, 1, 2, 3])),
        Task("ending-n3", ending, dict(n=3, k=1, cfgs=[{}, dict(range_thr=0.5, total_power_thr=2)], max_imfs=[-1, 2])),
    ]
    return t
