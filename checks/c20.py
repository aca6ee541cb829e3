"""EEMD: the result does not depend on parallel execution, process count or chunking."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=200),
    bounds=["2-3 samples, 1-9 trials, 1-4 processes (8 thorough), any draws"],
    outside=["a start method other than fork/pickle copies", "floating-point summation order"],
    stubs=["process pool modelled by its contract: a copy of the task per chunk, results in submission order (map) or any order (imap_unordered)", "deterministic linear inner EMD"],
)


def same(ctx, what, a, b, tol=F(1, 10**7)):
    ctx.prove(what, tuple(a.shape) == tuple(b.shape), "%s %s" % (a.shape, b.shape))
    for k in range(len(a)):
        ctx.prove_close(what, vals(a[k]), vals(b[k]), tol)


def run(ctx, n, trials, procs, inner=("smooth",), trends=(False,), kinds=("normal",), withT=(False,), again=False, max_imfs=(-1,), width=0.5):
    use(ctx)
    EEMD = ctx.mod("PyEMD.EEMD").EEMD
    nt = ctx.pick(trials, "trials")
    p = ctx.pick(procs, "processes")
    tr = ctx.pick(trends, "separate_trends")
    kind = ctx.pick(kinds, "kind")
    m = ctx.pick(max_imfs, "max_imf")
    mk = dict(smooth=lambda: SmoothEMD(2), deep=lambda: SmoothEMD(4), sign=SignEMD, identity=IdentityEMD)[ctx.pick(inner, "inner")]
    kw = dict(trials=nt, noise_width=width, separate_trends=tr, noise_kind=kind)
    a = EEMD(parallel=False, ext_EMD=mk(), **kw)
    b = EEMD(parallel=True, processes=p, ext_EMD=mk(), **kw)
    S = ctx.reals("S", n, -4, 4)
    if n > 2:
        ctx.assume(ctx.And(*[S[0] - x >= 0 for x in vals(S)]))
    keep = vals(S)
    T = ctx.arr([F(2 * i + 1) for i in range(n)]) if ctx.pick(withT, "T") else None
    for e in (a, b):
        e.noise_seed(11)
    for _ in range(2 if again else 1):
        x, y = a.eemd(S, T, m), b.eemd(S, T, m)
        same(ctx, "parallel and sequential ensembles agree", x, y)
        ctx.prove("counts agree", list(a.ensemble_count()) == list(b.ensemble_count()))
        ctx.prove("orders agree", sorted(a.all_imfs) == sorted(b.all_imfs))
        for k in a.all_imfs:
            same(ctx, "trial modes agree, in trial order", a.all_imfs[k], b.all_imfs[k])
        ctx.prove_close("residues agree", vals(a.residue), vals(b.residue), F(1, 10**7))
        ctx.prove_close("the input signal is not modified", vals(S), keep, 0)
    ctx.cover("procs=%s" % p)


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("small", run, dict(n=2, trials=[1, 2, 3], procs=[1, 2, 4], kinds=["normal", "uniform"])),
        Task("chunks", run, dict(n=2, trials=[5, 9], procs=[1, 2])),
        Task("trends", run, dict(n=2, trials=[3, 5], procs=[1, 2], trends=[True], withT=[False, True])),
        Task("uneven", run, dict(n=2, trials=[2, 3], procs=[1, 2], inner=["sign"], trends=[False, True]), budget=60 if q else None),
        Task("again", run, dict(n=2, trials=[2, 5], procs=[1, 2], again=True)),
        Task("limit-n3", run, dict(n=3, trials=[2], procs=[2], max_imfs=[1, -1], inner=["smooth", "identity"])),
        Task("deep", run, dict(n=3, trials=[1, 2], procs=[2], max_imfs=[1, 2, 3, -1], inner=["deep"], withT=[False, True])),
        Task("trends-limit", run, dict(n=2, trials=[2], procs=[2], trends=[True], max_imfs=[1, 2, 3, -1], inner=["deep", "sign"])),
        Task("many-trials", run, dict(n=2, trials=[70], procs=[1], inner=["identity"])),
        Task("default-procs", run, dict(n=2, trials=[2], procs=[None])),
    ]
    if not q:
        t += [Task("many", run, dict(n=2, trials=[17, 33], procs=[1, 2, 8])), Task("uneven-4", run, dict(n=2, trials=[4, 6], procs=[1, 3], inner=["sign"]), weight=2)]
    return t
