"""EEMD: components are the ensemble averages; counts, deviations and residue agree with the trials."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=45, thorough=200),
    bounds=["2-3 samples, up to 3 trials (4 thorough), each trial's decomposition is arbitrary with 0-3 rows"],
    outside=["floating-point rounding"],
    stubs=["the inner EMD returns solver-chosen rows"],
)


def scripted(ctx, n, counts):
    class Scripted:
        def __init__(self):
            self.log = []

        def emd(self, S, T=None, max_imf=-1):
            t = len(self.log)
            k = ctx.pick(counts, "rows")
            r = [ctx.reals("r%d_%d_" % (t, j), n, -4, 4) for j in range(k)]
            self.log.append(dict(S=vals(S), T=None if T is None else vals(T), max_imf=max_imf, rows=[vals(x) for x in r]))
            return ctx.np.vstack(r) if r else ctx.np.empty((0, n))

        __call__ = emd

        def get_imfs_and_residue(self):
            return self.split()

        def get_imfs_and_trend(self):
            return self.split()

        def split(self):
            r = self.log[-1]["rows"]
            im = [ctx.arr(x) for x in r[:-1]]
            tr = ctx.arr(r[-1]) if r else ctx.np.zeros(n)
            return (ctx.np.vstack(im) if im else ctx.np.empty((0, n))), tr

    return Scripted()


def mean(col):
    s = col[0]
    for x in col[1:]:
        s = s + x
    return s / len(col)


def run(ctx, n, trials, counts, trends=(False,), withT=(False, True), max_imfs=(-1, 2), how=("eemd",), dtype="float64", width=None, earlier=()):
    EEMD = ctx.mod("PyEMD.EEMD").EEMD
    inner = scripted(ctx, n, counts)
    tr = ctx.pick(trends, "separate_trends")
    nt = ctx.pick(trials, "trials")
    kw = {} if width is None else dict(noise_width=width)
    e = EEMD(trials=nt, ext_EMD=inner, parallel=False, separate_trends=tr, **kw)
    e.noise_seed(3)
    S = ctx.reals("S", n, -4, 4) if dtype == "float64" else ctx.ints("S", n, -4, 4, dtype)
    keep = vals(S)
    T = ctx.arr([F(3 * i + 2) for i in range(n)]) if ctx.pick(withT, "T") else None
    m = ctx.pick(max_imfs, "max_imf")
    if earlier:  # an earlier run with other arguments leaves no trace
        e.eemd(S * 2.0, ctx.arr([F(i) for i in range(n)]) if T is None else None, max_imf=ctx.pick(earlier, "earlier limit"))
        inner.log.clear()
    out = e(S, T, m) if ctx.pick(how, "entry") == "call" else e.eemd(S, T, max_imf=m)
    ctx.observe("out", out)
    log = inner.log
    ctx.prove("one decomposition per trial", len(log) == nt, "%d of %d" % (len(log), nt))
    for x in log:
        ctx.prove("the limit reaches the inner decomposition", x["max_imf"] == m, str(x["max_imf"]))
        ctx.prove("the time axis reaches the inner decomposition", x["T"] is None if T is None and x["T"] is None else len(x["T"]) == n)
        if x["T"] is not None:
            ctx.prove_close("the time axis reaches the inner decomposition", x["T"], vals(T) if T is not None else [F(i) if ctx.symbolic else i for i in range(n)], 0)
        if width == 0:
            ctx.prove_close("without noise every trial decomposes the signal itself", x["S"], keep, F(1, 10**9))
    parts = [x["rows"] for x in log]
    if tr:
        trend = [r[-1] if r else [0 * keep[0]] * n for r in parts]
        parts = [r[:-1] for r in parts]
    K = max(len(r) for r in parts)
    cols = [[r[j] for r in parts if len(r) > j] for j in range(K)]
    if tr:
        cols.append(trend)
    if not cols:
        return
    ctx.prove("one component per mode order", len(out) == len(cols), "%d != %d" % (len(out), len(cols)))
    ctx.prove("counts are the numbers of trials that reached each order", list(e.ensemble_count()) == [len(c) for c in cols], "%s" % (e.ensemble_count(),))
    em, es, al = e.ensemble_mean(), e.ensemble_std(), e.all_imfs
    ctx.prove("all trial modes are kept, by order", sorted(al.keys()) == list(range(len(cols))), str(sorted(al.keys())))
    tot = [0] * n
    for j, c in enumerate(cols):
        want = [mean([r[i] for r in c]) for i in range(n)]
        ctx.prove_close("a component is the mean of the trials' modes of that order", vals(out[j]), want)
        ctx.prove_close("ensemble_mean is the output", vals(em[j]), want)
        ctx.prove("all trial modes are kept, by order", len(al[j]) == len(c), "%d != %d" % (len(al[j]), len(c)))
        for a, b in zip(range(len(c)), c):
            ctx.prove_close("all trial modes are kept, by order", vals(al[j][a]), b, 0)
        for i in range(n):
            var = mean([(r[i] - want[i]) * (r[i] - want[i]) for r in c])
            ctx.prove("ensemble_std is the pointwise standard deviation", ctx.And(es[j][i] >= 0, ctx.near(es[j][i] * es[j][i], var, F(1, 10**6))), "component %d" % j)
        tot = [a + b for a, b in zip(tot, want)]
    imfs, res = e.get_imfs_and_residue()
    ctx.prove_close("residue is what the components leave", vals(res), [a - b for a, b in zip(keep, tot)])
    ctx.prove_close("accessor returns the output", rows(imfs), rows(out), 0)
    ctx.cover("orders=%d" % len(cols))


def tasks(tier):
    q = tier == "quick"
    t = [
        Task("limits", run, dict(n=2, trials=[1, 2], counts=[4], withT=[False], max_imfs=[3, 4, 12], trends=[False, True])),
        Task("many-orders", run, dict(n=2, trials=[2], counts=[11], withT=[False], max_imfs=[-1], trends=[False, True])),
        Task("many-trials", run, dict(n=2, trials=[40], counts=[2], withT=[False], max_imfs=[-1], trends=[False, True])),
        Task("one-trial", run, dict(n=2, trials=[1], counts=[1, 2, 3], how=["eemd", "call"])),
        Task("reuse", run, dict(n=2, trials=[1, 2], counts=[1, 2], max_imfs=[-1, 1, 3], earlier=[-1, 1, 2])),
        Task("two-trials", run, dict(n=2, trials=[2], counts=[1, 2, 3], max_imfs=[-1])),
        Task("uneven", run, dict(n=2, trials=[3], counts=[1, 2], withT=[False], max_imfs=[-1])),
        Task("empty-rows", run, dict(n=2, trials=[2, 3], counts=[2, 0], withT=[False], max_imfs=[-1])),
        Task("trends", run, dict(n=2, trials=[1, 2], counts=[1, 2, 3], trends=[True], withT=[False], max_imfs=[-1])),
        Task("trends-3", run, dict(n=2, trials=[3], counts=[1, 3], trends=[True], withT=[False], max_imfs=[1])),
        Task("integers", run, dict(n=3, trials=[2], counts=[1, 2], withT=[False], max_imfs=[-1], dtype="int64")),
        Task("no-noise", run, dict(n=3, trials=[2], counts=[1, 2], withT=[False], max_imfs=[-1], width=0)),
    ]
    if not q:
        t += [
            Task("four-trials", run, dict(n=2, trials=[4], counts=[1, 2, 3], withT=[False], max_imfs=[-1]), weight=2),
            Task("four-trials-trends", run, dict(n=2, trials=[4], counts=[1, 2, 0], trends=[True], withT=[False], max_imfs=[-1]), weight=2),
        ]
    return t
