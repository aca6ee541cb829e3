"""Seeding: the same seed gives the same ensemble, whatever happened before and elsewhere."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=200),
    bounds=["2-3 samples, up to 3 trials, seeds 0..10**6 by choice, 0-3 processes, any draws"],
    outside=["numpy's generator itself (a stream is identified by its seed and position)"],
    stubs=["random streams: every draw is an arbitrary value named by stream and position", "linear stand-in for the inner EMD"],
)


def make(ctx, which, nt, p, **kw):
    return getattr(ctx.mod("PyEMD." + which), which)(trials=nt, ext_EMD=SmoothEMD(1), parallel=p > 0, processes=p or None, **kw)


def go(obj, which, S):
    return obj(S, None, 1) if which == "CEEMDAN" else obj(S)


def same(ctx, what, a, b):
    ctx.prove(what, tuple(a.shape) == tuple(b.shape), "%s %s" % (a.shape, b.shape))
    for k in range(len(a)):
        ctx.prove_close(what, vals(a[k]), vals(b[k]), F(1, 10**7))


def sig(ctx, which, n):
    return ctx.arr([F(x) for x in [1, -1, 1, -1][:n]]) if which == "CEEMDAN" else ctx.reals("S", n, -4, 4)


def twice(ctx, which, n, nt, procs, seeds, kinds=("normal", "uniform")):
    """same instance reseeded, and another instance with the same seed"""
    use(ctx)
    p = ctx.pick(procs, "processes")
    kind = ctx.pick(kinds, "kind")
    seed = ctx.pick(seeds, "seed")
    S = sig(ctx, which, n)
    a, b = make(ctx, which, nt, p, noise_kind=kind), make(ctx, which, nt, p, noise_kind=kind)
    for _ in range(ctx.pick([0, 1], "earlier runs")):
        go(a, which, S)
    a.noise_seed(seed)
    r1 = go(a, which, S)
    if ctx.pick([False, True], "reseed global stream"):
        ctx.reseed_global(99)
    a.noise_seed(seed)
    r2 = go(a, which, S)
    b.noise_seed(seed)
    r3 = go(b, which, S)
    same(ctx, "reseeding an instance repeats its result", r1, r2)
    same(ctx, "two instances with one seed agree", r1, r3)


def constructor(ctx, n, nt, seeds):
    """CEEMDAN(seed=...) is noise_seed(...)"""
    use(ctx)
    seed = ctx.pick(seeds, "seed")
    S = sig(ctx, "CEEMDAN", n)
    a = make(ctx, "CEEMDAN", nt, 0, seed=seed)
    b = make(ctx, "CEEMDAN", nt, 0)
    b.noise_seed(seed)
    same(ctx, "the constructor's seed is the noise seed", go(a, "CEEMDAN", S), go(b, "CEEMDAN", S))


def different(ctx, which, n, nt, procs, seeds):
    seeds = ctx.pick(seeds, "pair")
    return different_(ctx, which, n, nt, procs, seeds)


def different_(ctx, which, n, nt, procs, seeds):
    """different seeds, unseeded instances and repeated runs use different draws"""
    use(ctx)
    p = ctx.pick(procs, "processes")
    how = ctx.pick(["seeds", "unseeded", "repeat"], "how")
    cls = getattr(ctx.mod("PyEMD." + which), which)
    kw = dict(trials=nt, ext_EMD=IdentityEMD(), parallel=p > 0, processes=p or None)
    a, b = cls(**kw), cls(**kw)
    if how == "seeds":
        s1, s2 = seeds
        a.noise_seed(s1)
        b.noise_seed(s2)
    if how == "repeat":
        a.noise_seed(seeds[0])
        b = a
    x = vals(a.generate_noise(1.0, n))
    y = vals(b.generate_noise(1.0, n))
    nd, _ = ctx.draws()
    for i, u in enumerate(nd):
        for v in nd[:i]:
            ctx.assume(ctx.Or(u - v >= F(1, 64), v - u >= F(1, 64)))
    for u in x:
        for v in y:
            ctx.prove("different streams give different noise", ctx.Not(ctx.near(u, v, F(1, 10**7))), how)


def global_stream(ctx, which, n, nt, procs):
    """the process-wide stream is neither used nor disturbed"""
    use(ctx)
    p = ctx.pick(procs, "processes")
    S = sig(ctx, which, n)
    ctx.reseed_global(5)
    g = [ctx.global_draw() for _ in range(3)]
    ctx.reseed_global(5)
    a = make(ctx, which, nt, p)
    a.noise_seed(1)
    r1 = go(a, which, S)
    h = [ctx.global_draw() for _ in range(3)]
    ctx.prove_close("numpy's global stream is not disturbed", h, g, 0)
    ctx.reseed_global(6)
    b = make(ctx, which, nt, p)
    b.noise_seed(1)
    same(ctx, "numpy's global stream has no influence", r1, go(b, which, S))


def tasks(tier):
    q = tier == "quick"
    nt = 2 if q else 3
    return [
        Task("eemd", twice, dict(which="EEMD", n=2, nt=nt, procs=[0, 2], seeds=[0, 1, 12345, 2**32 - 1])),
        Task("eemd-chunks", twice, dict(which="EEMD", n=2, nt=6, procs=[0, 1], seeds=[3], kinds=["normal"])),
        Task("ceemdan", twice, dict(which="CEEMDAN", n=3, nt=nt, procs=[0, 2], seeds=[0, 12345]), budget=60 if q else None),
        Task("constructor", constructor, dict(n=3, nt=nt, seeds=[0, 1, 12345])),
        Task("different-eemd", different, dict(which="EEMD", n=2, nt=nt, procs=[0, 2], seeds=[(1, 2), (0, 1), (3, 3 + 2**16), (5, 5 + 2**31)])),
        Task("different-ceemdan", different, dict(which="CEEMDAN", n=2, nt=nt, procs=[0, 2], seeds=[(1, 2), (0, 1), (3, 3 + 2**16), (5, 5 + 2**31)])),
        Task("global-eemd", global_stream, dict(which="EEMD", n=2, nt=nt, procs=[0, 2])),
        Task("global-ceemdan", global_stream, dict(which="CEEMDAN", n=3, nt=nt, procs=[0, 2])),
    ]
