"""CEEMDAN: the result does not depend on parallel execution, process count or completion order."""
from .common import *
from .c20 import same

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=200),
    bounds=["3-4 samples, 1-3 trials in every completion order (4 trials thorough), 1-4 processes, any draws"],
    outside=["a start method other than fork/pickle copies", "floating-point summation order (results may differ in the last digits)"],
    stubs=["process pool modelled by its contract: a copy of the task per chunk, results in submission order (map) or any order (imap_unordered)", "deterministic linear inner EMD"],
)


def run(ctx, n, trials, procs, cfgs, max_imfs=(1,), kinds=("normal",), inner="smooth", again=False, base=None, withT=(False,)):
    use(ctx)
    C = ctx.mod("PyEMD.CEEMDAN").CEEMDAN
    nt = ctx.pick(trials, "trials")
    p = ctx.pick(procs, "processes")
    cfg = ctx.pick(cfgs, "cfg")
    kind = ctx.pick(kinds, "kind")
    m = ctx.pick(max_imfs, "max_imf")
    mk = dict(smooth=lambda: SmoothEMD(2), deep=lambda: SmoothEMD(4), sign=SignEMD)[inner]
    kw = dict(trials=nt, noise_kind=kind, range_thr=0, total_power_thr=0, **cfg)
    lively(ctx, 11, nt, n, kind)
    a = C(parallel=False, ext_EMD=mk(), **kw)
    b = C(parallel=True, processes=p, ext_EMD=mk(), **kw)
    S = ctx.arr([F(x) for x in (base or [1, -1, 1, -1])[:n]])
    T = ctx.arr([F(2 * i + 1) for i in range(n)]) if ctx.pick(withT, "T") else None
    for e in (a, b):
        e.noise_seed(11)
    for _ in range(2 if again else 1):
        x, y = a.ceemdan(S, T, m), b.ceemdan(S, T, m)
        same(ctx, "parallel and sequential results agree", x, y, F(1, 10**6))
        ctx.prove_close("residues agree", vals(a.residue), vals(b.residue), F(1, 10**6))
        if again:
            lively2(ctx, a, nt, n)
    ctx.cover("procs=%s" % p)


def lively2(ctx, a, nt, n):
    """next block of the same stream"""
    r = ctx.np.random.RandomState(11)
    r.normal(size=nt * n)
    for _ in range(nt):
        x = r.normal(size=n)
        ctx.assume(x[0] - x[1] >= F(1, 16))


def tasks(tier):
    q = tier == "quick"
    RAW = dict(beta_progress=False, epsilon=0.5)
    t = [
        Task("raw", run, dict(n=4, trials=[1, 2, 3], procs=[1, 2, 4], cfgs=[RAW])),
        Task("raw-chunks", run, dict(n=3, trials=[4], procs=[1], cfgs=[RAW]), budget=40 if q else None),
        Task("scaled", run, dict(n=3, trials=[1, 2], procs=[2], cfgs=[dict(epsilon=0.5), {}], kinds=["normal", "uniform"]), budget=60 if q else None),
        Task("two-stages", run, dict(n=3, trials=[1, 2], procs=[2], cfgs=[RAW], max_imfs=[2], withT=[False, True]), budget=60 if q else None),
        Task("uneven", run, dict(n=3, trials=[2], procs=[2], cfgs=[RAW], max_imfs=[1], inner="sign"), budget=60 if q else None),
        Task("deep", run, dict(n=4, trials=[1], procs=[2], cfgs=[RAW], max_imfs=[3], inner="deep", base=[1, -2, 3, -1]), budget=60 if q else None),
        Task("again", run, dict(n=3, trials=[2], procs=[2], cfgs=[RAW], again=True), budget=40 if q else None),
        Task("default-procs", run, dict(n=3, trials=[2], procs=[None], cfgs=[RAW])),
    ]
    if not q:
        t += [Task("raw-4", run, dict(n=3, trials=[4], procs=[2, 3], cfgs=[RAW]), weight=2), Task("raw-9-chunks", run, dict(n=2, trials=[5], procs=[1], cfgs=[RAW], base=[1, -1]), weight=2)]
    return t
