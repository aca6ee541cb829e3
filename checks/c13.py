"""Purity: inputs are left alone, results are independent of earlier and later use."""
from .common import *

META = dict(
    mods=ENS_MODS, budget=dict(quick=60, thorough=300),
    bounds=["two or three consecutive decompositions of signals of 4-6 samples on one instance; EMD, EEMD and CEEMDAN"],
    outside=["concurrent use of one instance from threads"],
)


def eq_rows(ctx, what, a, b):
    ctx.prove(what, tuple(a.shape) == (len(b),) + ((len(b[0]),) if b else tuple(a.shape[1:])), "%s" % (a.shape,))
    for k in range(len(b)):
        ctx.prove_close(what, vals(a[k]), b[k], 0)


def frozen(ctx, n, cfgs, mode="zig", det=("simple",)):
    """inputs unchanged, dtype kept"""
    emd = emd_cls(ctx)(extrema_detection=ctx.pick(det, "det"), **ctx.pick(cfgs, "cfg"))
    S = ray(ctx, n, 1, gap=F(1, 1000)) if mode == "ray" else ctx.reals("S", n, -4, 4)
    if mode == "zig":
        zigzag(ctx, S)
    T = ctx.arr([F(i * 2 + 3) for i in range(n)])
    keep, keepT = vals(S), vals(T)
    emd.emd(S, T, max_imf=ctx.pick([-1, 1], "max_imf"))
    ctx.prove_close("the input signal is not modified", vals(S), keep, 0)
    ctx.prove_close("the time axis is not modified", vals(T), keepT, 0)
    emd.get_imfs_and_residue()
    emd.get_imfs_and_trend()
    ctx.prove_close("the input signal is not modified", vals(S), keep, 0)


def later(ctx, n, cfgs, mode="zig"):
    """what a run returned stays as it was; changing it does not change the instance's record"""
    emd = emd_cls(ctx)(**ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -4, 4)
    zigzag(ctx, S)
    keepS = vals(S)
    m = ctx.pick([1, -1], "max_imf")
    out = emd.emd(S, max_imf=m)
    imfs, res = emd.get_imfs_and_residue()
    imfs2, trend = emd.get_imfs_and_trend()
    ko, ki, kr, ki2, kt = rows(out), rows(imfs), vals(res), rows(imfs2), vals(trend)
    B = ctx.arr([F(x) for x in [3, -1, 4, -1, 5, -9, 2, -6][: n + 1]])
    emd.emd(B)
    eq_rows(ctx, "an earlier result is not changed by a later run", out, ko)
    eq_rows(ctx, "earlier modes are not changed by a later run", imfs, ki)
    ctx.prove_close("an earlier residue is not changed by a later run", vals(res), kr, 0)
    eq_rows(ctx, "earlier modes are not changed by a later run", imfs2, ki2)
    ctx.prove_close("an earlier trend is not changed by a later run", vals(trend), kt, 0)
    ctx.prove_close("the input signal is not modified", vals(S), keepS, 0)


def overwrite(ctx, n, cfgs):
    """the caller may overwrite what it got (and what it passed) without disturbing the record"""
    emd = emd_cls(ctx)(**ctx.pick(cfgs, "cfg"))
    S = ctx.reals("S", n, -4, 4)
    zigzag(ctx, S)
    out = emd.emd(S, max_imf=ctx.pick([1, -1], "max_imf"))
    a, b = emd.get_imfs_and_residue()
    ka, kb = rows(a), vals(b)
    out[:] = 7.0
    S[:] = 9.0
    a2, b2 = emd.get_imfs_and_residue()
    eq_rows(ctx, "modes on record are not shared with the returned array or the input", a2, ka)
    ctx.prove_close("residue on record is not shared with the returned array or the input", vals(b2), kb, 0)


def fresh(ctx, n, cfgs, first, max_imfs=(1,), mode="zig", reuse_T=False):
    """a used instance decomposes like a new one"""
    cfg = ctx.pick(cfgs, "cfg")
    EMD = emd_cls(ctx)
    S = ray(ctx, n, 1, gap=F(1, 1000)) if mode == "ray" else ctx.reals("S", n, -4, 4)
    if mode == "zig":
        zigzag(ctx, S)
    used, new = EMD(**cfg), EMD(**cfg)
    kind, length, m1 = ctx.pick(first, "earlier run")
    B = ctx.arr([F(x) for x in [3, -1, 4, -1, 5, -9, 2, -6, 5, -3, 5, -8][:length]], kind)
    used.emd(B, max_imf=m1)
    m = ctx.pick(max_imfs, "max_imf")
    a = used.emd(S.copy(), max_imf=m)
    b = new.emd(S.copy(), max_imf=m)
    eq_rows(ctx, "a used instance gives what a new one gives", a, rows(b))
    (ia, ra), (ib, rb) = used.get_imfs_and_residue(), new.get_imfs_and_residue()
    eq_rows(ctx, "a used instance records what a new one records", ia, rows(ib))
    ctx.prove_close("a used instance records what a new one records", vals(ra), vals(rb), 0)
    ctx.prove("configuration is not changed by use", used.FIXE == new.FIXE and used.nbsym == new.nbsym and used.spline_kind == new.spline_kind and used.MAX_ITERATION == new.MAX_ITERATION and used.extrema_detection == new.extrema_detection)


class FakeBase:
    pass


def fake(ctx, n):
    """stand-in EMD: splits a signal into first-difference-like pieces, linear"""

    class Fake:
        def __init__(self):
            self.last = None

        def emd(self, S, T=None, max_imf=-1):
            np = ctx.np
            a = S * 0.5
            b = S * 0.25
            rest = S - a - b
            self.last = (np.vstack((a, b)), rest)
            if max_imf == 1:
                return np.vstack((a, S - a))
            return np.vstack((a, b, rest))

        def get_imfs_and_residue(self):
            return self.last

        def get_imfs_and_trend(self):
            return self.last

    return Fake()


def ensemble(ctx, which, n, trials):
    cls = getattr(ctx.mod("PyEMD." + which), which)
    kw = dict(trials=trials, parallel=False, ext_EMD=fake(ctx, n), range_thr=0, total_power_thr=0)
    S = ctx.reals("S", n, 1, 4) if which == "EEMD" else ctx.arr([F(x) for x in [1, -1, 1, -1][:n]])
    keep = vals(S)
    T = ctx.arr([F(i) for i in range(n)])
    obj, new = cls(**kw), cls(**kw)
    obj.noise_seed(5)
    first = obj(S, T, max_imf=1) if which == "CEEMDAN" else obj(S, T)
    kf = rows(first)
    r1 = obj.get_imfs_and_residue()
    k1 = (rows(r1[0]), vals(r1[1]))
    ctx.prove_close("the input signal is not modified", vals(S), keep, 0)
    B = ctx.arr([F(x) for x in [3, -1, 4, -2, 5][: n + 1]])
    obj(B, None, max_imf=1) if which == "CEEMDAN" else obj(B)
    eq_rows(ctx, "an earlier result is not changed by a later run", first, kf)
    eq_rows(ctx, "an earlier result is not changed by a later run", r1[0], k1[0])
    obj.noise_seed(11)
    new.noise_seed(11)
    a = obj(S, None, max_imf=1) if which == "CEEMDAN" else obj(S)
    b = new(S, None, max_imf=1) if which == "CEEMDAN" else new(S)
    eq_rows(ctx, "a used, reseeded instance gives what a new one gives", a, rows(b))
    ra, rb = obj.get_imfs_and_residue(), new.get_imfs_and_residue()
    ctx.prove_close("a used, reseeded instance records what a new one records", vals(ra[1]), vals(rb[1]), 0)
    if which == "EEMD":
        ctx.prove("ensemble records are those of the last run", obj.ensemble_count() == new.ensemble_count(), "%s %s" % (obj.ensemble_count(), new.ensemble_count()))


class Failing(SmoothEMD):
    """raises at its fail-th call, once"""

    def __init__(self, levels, fail):
        SmoothEMD.__init__(self, levels)
        self.left = fail

    def emd(self, S, T=None, max_imf=-1):
        self.left -= 1
        if self.left == 0:
            raise RuntimeError("planned")
        return SmoothEMD.emd(self, S, T, max_imf)

    __call__ = emd


def failure(ctx, which, n, trials, fails, levels=2):
    """a run that fails half-way leaves no trace in the next one"""
    use(ctx)
    cls = getattr(ctx.mod("PyEMD." + which), which)
    f = ctx.pick(fails, "failing call")
    kw = dict(trials=trials, parallel=False, range_thr=0, total_power_thr=0) if which == "CEEMDAN" else dict(trials=trials, parallel=False)
    a, b = cls(ext_EMD=Failing(levels, f), **kw), cls(ext_EMD=SmoothEMD(levels), **kw)
    S = ctx.reals("S", n, 1, 4) if which == "EEMD" else ctx.arr([F(x) for x in [1, -1, 1, -1][:n]])
    keep = vals(S)
    lively(ctx, 4, trials, n)
    lively(ctx, 9, trials, n)
    a.noise_seed(4)
    B = ctx.arr([F(x) for x in [3, -1, 4, -2, 5][:n]])
    r = ctx.call(a, B, None, 1, allowed=(RuntimeError,))
    ctx.prove_close("the input signal is not modified", vals(S), keep, 0)
    if r[0] != "exc":
        ctx.abort("the run ended before the failure")
    a.noise_seed(9)
    b.noise_seed(9)
    x, y = a(S, None, 1), b(S, None, 1)
    eq_rows(ctx, "a run after a failed one gives what a new instance gives", x, rows(y))
    ctx.prove_close("a run after a failed one records what a new instance records", vals(a.residue), vals(b.residue), 0)
    if which == "EEMD":
        ctx.prove("ensemble records are those of the last run", list(a.ensemble_count()) == list(b.ensemble_count()), "%s %s" % (a.ensemble_count(), b.ensemble_count()))


def row_view(ctx, which, n):
    """a signal that is a row of a larger array: the array stays as it was"""
    use(ctx)
    M = ctx.arr([[F(x) for x in r] for r in ([5, 6, 7, 8][:n], [1, -1, 1, -1][:n], [4, 3, 2, 1][:n])])
    if which == "EMD":
        v = ctx.real("v", -4, 4)
        M[1][0] = v
    T = ctx.arr([[F(x) for x in range(n)]] * 2)
    keep, keepT = rows(M), rows(T)
    if which == "EMD":
        emd_cls(ctx)(FIXE=1).emd(M[1], T[0])
    else:
        lively(ctx, 4, 2, n)
        c = getattr(ctx.mod("PyEMD." + which), which)(trials=2, parallel=False, ext_EMD=SmoothEMD(2))
        c.noise_seed(4)
        c(M[1], T[0], 1)
    for a, b in zip(rows(M), keep):
        ctx.prove_close("the input signal is not modified", a, b, 0)
    for a, b in zip(rows(T), keepT):
        ctx.prove_close("the time axis is not modified", a, b, 0)


def many_modes(ctx, n, levels):
    """an ensemble with many modes, used again"""
    use(ctx)
    cls = ctx.mod("PyEMD.EEMD").EEMD
    k1, k2 = ctx.pick([(levels, levels), (levels, 2), (2, levels)], "modes")
    inner = SmoothEMD(k1)
    a, b = cls(trials=2, parallel=False, ext_EMD=inner), cls(trials=2, parallel=False, ext_EMD=SmoothEMD(k2))
    S = ctx.reals("S", n, 1, 4)
    lim = ctx.pick([None, 1, 4], "max_imf")
    a(S)
    inner.levels = k2
    a.noise_seed(3)
    b.noise_seed(3)
    more = {} if lim is None else dict(max_imf=lim)
    eq_rows(ctx, "a used, reseeded instance gives what a new one gives", a(S, **more), rows(b(S, **more)))
    eq_rows(ctx, "ensemble records are those of the last run", a.ensemble_mean(), rows(b.ensemble_mean()))
    ctx.prove("ensemble records are those of the last run", list(a.ensemble_count()) == list(b.ensemble_count()), "%s %s" % (a.ensemble_count(), b.ensemble_count()))


def tasks(tier):
    q = tier == "quick"
    F1 = [dict(FIXE=1)]
    FIRST = [("float64", 8, -1), ("int64", 5, 1), ("float32", 6, 1), ("float64", 12, 2)]
    return [
        Task("inputs-n5", frozen, dict(n=5, cfgs=[dict(FIXE=1), dict(FIXE=1, spline_kind="akima"), dict(FIXE_H=1, MAX_ITERATION=2)]), budget=40 if q else None),
        Task("inputs-n4", frozen, dict(n=4, cfgs=[dict(FIXE=1)], mode="free")),
        Task("inputs-parabol", frozen, dict(n=6, cfgs=F1, mode="ray", det=("parabol",)), budget=20 if q else None, path_timeout=20),
        Task("inputs-default", frozen, dict(n=5, cfgs=[dict(MAX_ITERATION=2)], mode="ray"), budget=30 if q else None),
        Task("later-n5", later, dict(n=5, cfgs=F1)),
        Task("later-n6", later, dict(n=6, cfgs=[dict(FIXE=1, spline_kind="linear")])),
        Task("overwrite-n5", overwrite, dict(n=5, cfgs=F1)),
        Task("overwrite-n3", overwrite, dict(n=3, cfgs=F1)),
        Task("fresh-n5", fresh, dict(n=5, cfgs=F1, first=FIRST)),
        Task("fresh-all-n5", fresh, dict(n=5, cfgs=F1, first=FIRST[:2], max_imfs=[-1]), budget=30 if q else None),
        Task("fresh-modes", fresh, dict(n=6, cfgs=[dict(MAX_ITERATION=3), dict(FIXE_H=1, MAX_ITERATION=3), dict(FIXE=1, spline_kind="akima")], first=FIRST[:3], mode="ray"), budget=40 if q else None),
        Task("fresh-parabol", fresh, dict(n=6, cfgs=[dict(FIXE=1, extrema_detection="parabol")], first=FIRST[:2], mode="ray"), budget=20 if q else None, path_timeout=20),
        Task("eemd", ensemble, dict(which="EEMD", n=3, trials=2)),
        Task("row-emd", row_view, dict(which="EMD", n=4)),
        Task("row-eemd", row_view, dict(which="EEMD", n=3)),
        Task("row-ceemdan", row_view, dict(which="CEEMDAN", n=3)),
        Task("eemd-many-modes", many_modes, dict(n=2, levels=9)),
        Task("eemd-failure", failure, dict(which="EEMD", n=2, trials=3, fails=[1, 2, 3])),
        Task("ceemdan-failure", failure, dict(which="CEEMDAN", n=3, trials=2, fails=[1, 2, 3, 4, 5, 6])),
        Task("ceemdan", ensemble, dict(which="CEEMDAN", n=3, trials=2)),
    ]
