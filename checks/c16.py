"""Ensemble noise: amplitude and kind as requested, a fresh draw for every sample of every trial."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=200),
    bounds=["2-3 samples, up to 3 trials (5 thorough), 1-4 processes, any draws"],
    outside=["the statistical quality of numpy's generators (draws are arbitrary values in a bounded range)"],
    stubs=["random streams: every draw is an arbitrary value named by stream and position", "the inner EMD returns what it is given", "process pools: isolated copies per chunk, any completion order"],
)


def sample_ok(ctx, kind, scale, x):
    nd, ud = ctx.draws()
    tol = F(1, 10**6)
    if kind == "normal":
        return ctx.Or(*[ctx.Or(ctx.near(x, scale * d, tol), ctx.near(x, -scale * d, tol)) for d in nd])
    return ctx.Or(*[ctx.Or(ctx.near(x, scale * (d - 0.5), tol), ctx.near(x, scale * (0.5 - d), tol)) for d in ud])


def spread(ctx, kind):
    """distinct draws, none of them zero"""
    nd, ud = ctx.draws()
    ds = nd if kind == "normal" else ud
    for i, a in enumerate(ds):
        for b in ds[:i]:
            ctx.assume(ctx.Or(a - b >= F(1, 64), b - a >= F(1, 64)))


def generate(ctx, classes, sizes):
    which = ctx.pick(classes, "class")
    kind = ctx.pick(["normal", "uniform"], "kind")
    obj = getattr(ctx.mod("PyEMD." + which), which)(trials=2, parallel=False, noise_kind=kind)
    scale = ctx.real("scale", 0, 4)
    size = ctx.pick(sizes, "size")
    x = obj.generate_noise(scale, size)
    ctx.prove("noise has the requested shape", tuple(x.shape) == (size if isinstance(size, tuple) else (size,)), str(x.shape))
    _, xs = ctx.flat(x)
    for v in xs:
        ctx.prove("%s noise is the scaled standard draw" % kind, sample_ok(ctx, kind, scale, v))
        if kind == "uniform":
            ctx.prove("uniform noise stays within half the scale", ctx.And(v <= scale * 0.5 + 1e-9, v >= -scale * 0.5 - 1e-9))
    if ctx.truth(scale >= F(1, 8)):
        spread(ctx, kind)
        for i in range(len(xs)):
            for j in range(i):
                ctx.prove("every noise sample is a fresh draw", ctx.Not(ctx.near(xs[i], xs[j], F(1, 10**6))), "samples %d and %d" % (j, i))


def unknown(ctx):
    which = ctx.pick(["EEMD", "CEEMDAN"], "class")
    obj = getattr(ctx.mod("PyEMD." + which), which)(trials=2, parallel=False, noise_kind=ctx.pick(["pink", "Normal", "", None], "kind"))
    r = ctx.call(obj.generate_noise, 1.0, 3, allowed=(ValueError,))
    ctx.prove("an unknown kind of noise is refused", r[0] == "exc")


def eemd(ctx, n, trials, kinds, procs, widths, again=(False,), dtype=None, lo=-4, hi=4):
    use(ctx)
    kind = ctx.pick(kinds, "kind")
    p = ctx.pick(procs, "processes")
    w = ctx.pick(widths, "width")
    nt = ctx.pick(trials, "trials")
    kw = {} if w is None else dict(noise_width=w)
    e = ctx.mod("PyEMD.EEMD").EEMD(trials=nt, ext_EMD=IdentityEMD(), noise_kind=kind, parallel=p > 0, processes=p or None, **kw)
    if ctx.pick((True, False), "seeded"):
        e.noise_seed(7)
    many = nt > 8  # fixed signal, increasing draws: a linear problem
    S = ctx.arr([F(i) for i in range(n)]) if many else ctx.ints("S", n, lo, hi, dtype) if dtype else ctx.reals("S", n, lo, hi)
    keep = [1.0 * x for x in vals(S)]
    hi = lo = keep[0]
    for x in keep[1:]:
        if ctx.truth(x > hi):
            hi = x
        if ctx.truth(x < lo):
            lo = x
    scale = (hi - lo) * (0.05 if w is None else w)
    noise = []
    for _ in range(2 if ctx.pick(again, "twice") else 1):
        e.eemd(S)
        al = e.all_imfs[0]
        ctx.prove("one decomposition per trial", len(al) == nt, "%d" % len(al))
        noise += [[al[t][i] - keep[i] for i in range(n)] for t in range(nt)]
    for x in noise:
        for v in x:
            ctx.prove("noise amplitude is noise_width times the signal's range", sample_ok(ctx, kind, scale, v), kind)
    if w == 0:
        return
    fl = [v for x in noise for v in x]
    if many:
        ds = ctx.draws()[0 if kind == "normal" else 1]
        for a, b in zip(ds, ds[1:]):
            ctx.assume(b - a >= F(1, 128))
        for i in range(len(fl)):
            ctx.prove("every sample of every trial gets a fresh draw", ctx.And(*[ctx.Not(ctx.near(fl[i], fl[j], F(1, 10**7))) for j in range(i)]), "sample %d" % i)
        return
    ctx.assume(hi - lo >= 1)
    spread(ctx, kind)
    for i in range(len(fl)):
        for j in range(i):
            ctx.prove("every sample of every trial gets a fresh draw", ctx.Not(ctx.near(fl[i], fl[j], F(1, 10**7))), "samples %d and %d" % (j, i))
    ctx.cover("procs=%s" % p)


def ceemdan(ctx, n, trials, kinds, procs, scales):
    """the noise bank: one row per trial, scaled by noise_scale"""
    use(ctx)
    kind = ctx.pick(kinds, "kind")
    p = ctx.pick(procs, "processes")
    sc = ctx.pick(scales, "noise_scale")
    nt = ctx.pick(trials, "trials")
    seen = []

    class Spy(IdentityEMD):
        def emd(self, S, T=None, max_imf=-1):
            seen.append((vals(S), max_imf))
            return IdentityEMD.emd(self, S, T, max_imf)

    kw = {} if sc is None else dict(noise_scale=sc)
    c = ctx.mod("PyEMD.CEEMDAN").CEEMDAN(trials=nt, ext_EMD=Spy(), noise_kind=kind, parallel=False, beta_progress=False, seed=4, **kw)
    S = ctx.arr([F(x) for x in [1, -1, 1, -1][:n]])
    c(S, max_imf=1)
    bank = [x for x, m in seen if m < 0][:nt]
    ctx.prove("one noise realisation per trial is decomposed", len(bank) == nt, "%d" % len(bank))
    s = 1 if sc is None else sc
    fl = [v for x in bank for v in x]
    for v in fl:
        ctx.prove("noise amplitude is noise_scale", sample_ok(ctx, kind, s, v), kind)
    spread(ctx, kind)
    for i in range(len(fl)):
        for j in range(i):
            ctx.prove("every sample of every trial gets a fresh draw", ctx.Not(ctx.near(fl[i], fl[j], F(1, 10**7))), "samples %d and %d" % (j, i))


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("generate", generate, dict(classes=["EEMD", "CEEMDAN"], sizes=[1, 3, (2, 2)])),
        Task("unknown", unknown),
        Task("eemd-seq", eemd, dict(n=2, trials=[1, 3], kinds=["normal", "uniform"], procs=[0], widths=[None, 0.5])),
        Task("eemd-n3", eemd, dict(n=3, trials=[2], kinds=["normal"], procs=[0], widths=[0.5])),
        Task("eemd-int8", eemd, dict(n=2, trials=[1], kinds=["normal"], procs=[0], widths=[0.5], dtype="int8", lo=-128, hi=127)),
        Task("eemd-uint8", eemd, dict(n=2, trials=[1], kinds=["uniform"], procs=[0], widths=[None], dtype="uint8", lo=0, hi=255)),
        Task("eemd-int16", eemd, dict(n=3, trials=[1], kinds=["normal"], procs=[0], widths=[0.5], dtype="int16", lo=-2**15, hi=2**15 - 1)),
        Task("eemd-many", eemd, dict(n=2, trials=[20], kinds=["normal"], procs=[0, 2], widths=[0.5])),
        Task("eemd-off", eemd, dict(n=2, trials=[2], kinds=["normal", "uniform"], procs=[0, 2], widths=[0])),
        Task("eemd-parallel", eemd, dict(n=2, trials=[3], kinds=["normal", "uniform"], procs=[1, 2, 4], widths=[0.5])),
        Task("eemd-chunks", eemd, dict(n=2, trials=[6], kinds=["normal"], procs=[1], widths=[0.5])),
        Task("eemd-again", eemd, dict(n=2, trials=[2], kinds=["normal"], procs=[0, 2], widths=[0.5], again=[True])),
        Task("ceemdan", ceemdan, dict(n=2, trials=[1, 3], kinds=["normal", "uniform"], procs=[0], scales=[None, 0.5, 2])),
    ]
    if not q:
        t += [Task("eemd-five", eemd, dict(n=2, trials=[5], kinds=["normal", "uniform"], procs=[0, 1, 2, 3], widths=[0.5]), weight=2)]
    return t
