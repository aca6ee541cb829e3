"""EMD_matlab: components add up, limits and sifting counts hold, extrema and envelopes are those of the signal."""
from .c10 import oracle
from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.EMD_matlab", "PyEMD.splines", "PyEMD.utils"], budget=dict(quick=60, thorough=400),
    bounds=["exact layer: 4-6 free or alternating samples, segments of 7-10 samples, flat runs; FIXE/FIXE_H/default stopping with at most 4 siftings per mode",
            "stub layer: 2 samples, arbitrary extrema counts, envelopes and verdicts, at most 5 siftings"],
    outside=["floating-point rounding", "signals of fewer than 3 samples"],
    stubs=["stub layer: findExtrema, extractMaxMinSpline, stop_sifting replaced by solver-chosen results", "Akima uninterpreted away from its knots"],
)


def cls(ctx):
    return ctx.mod("PyEMD.EMD_matlab").EMD


def make(ctx, C=None, **cfg):
    e = (C or cls(ctx))()
    for k, v in cfg.items():
        setattr(e, k, v)
    return e


def outcome(ctx, out, keep, n, limit):
    ctx.prove("four results", len(out) == 4)
    IMF, EXT, ITER, no = out
    ctx.prove("components are numbered 0, 1, ..., imfNo-1", sorted(IMF) == list(range(no)) and sorted(EXT) == list(range(no)) and sorted(ITER) == list(range(no)), "%s %s %s %s" % (no, sorted(IMF), sorted(EXT), sorted(ITER)))
    rws = [IMF[k] for k in range(no)]
    for r in rws:
        ctx.prove("each component has one value per sample", len(r) == n, str(len(r)))
    ctx.prove_close("components add up to the signal", sum_rows(ctx, rws, n), keep, F(1, 10**6))
    if limit is not None and limit > 0:
        ctx.prove("no more components than asked for, plus the remainder", no <= max(limit, 2), "%d for %d" % (no, limit))
    return rws


def exact(ctx, n, mode="free", lo=-4, hi=4, cfgs=({},), limits=(None,), kinds=("cubic",), T=None, nbsyms=(2,), dtype="float64", gap=0):
    S = ray(ctx, n, 1, gap=gap) if mode == "ray" else ray(ctx, n, 1, bases="riding", gap=gap) if mode == "riding" else ctx.ints("S", n, lo, hi, dtype) if dtype.startswith("int") else ctx.reals("S", n, lo, hi)
    if mode == "zig":
        zigzag(ctx, S)
    keep = vals(S)
    e = make(ctx, splineKind=ctx.pick(kinds, "spline"), nbsym=ctx.pick(nbsyms, "nbsym"), **ctx.pick(cfgs, "cfg"))
    lim = ctx.pick(limits, "maxImf")
    TT = None if T is None else ctx.arr([F(t) for t in T])
    out = e.emd(e, S, TT, lim)
    outcome(ctx, out, keep, n, lim)
    ctx.prove_close("the input is not modified", vals(S), keep, 0)
    if dtype == "float64":
        ctx.observe("imf0", out[0][0])
    ctx.cover("components=%d" % out[3])


def stub_cls(ctx, n, pairs, max_calls, tab, log, verdicts=(True, False)):
    np = ctx.np

    class Stub(cls(ctx)):
        def findExtrema(self, t, s):
            k, z = ctx.memo(tab.t["ext"], vals(s), lambda: ctx.pick(pairs, "extrema"))
            if k > 2 and all(ctx.same_term(x, 0) if ctx.symbolic else x == 0 for x in vals(s)):
                k, z = 0, 1  # nothing left
            elif k > 2:
                ctx.assume(ctx.Or(*[c for x in vals(s) for c in (x >= F(1, 4), x <= -F(1, 4))]))
            log.append(("ext", k, z))
            mx = (k + 1) // 2
            return np.arange(mx), np.arange(mx), np.arange(k - mx), np.arange(k - mx), np.arange(z)

        def fresh(self):
            tab.n += 1
            if tab.n > max_calls:
                ctx.abort("more siftings than the bound")
            return ctx.reals("U%d_" % tab.n, n, -8, 8), ctx.reals("L%d_" % tab.n, n, -8, 8)

        def extractMaxMinSpline(self, T, S):
            a, b = ctx.memo(tab.t["env"], vals(S), self.fresh)
            log.append(("sift", vals(S), vals(a), vals(b)))
            e = np.array([[0.0, 1.0], [1.0, 1.0]])
            return a.copy(), b.copy(), e, e

        def stop_sifting(self, imf, a, b, mean, extNo):
            f = ctx.memo(tab.t["check"], vals(imf), lambda: ctx.pick(verdicts, "accept"))
            log.append(("stop", f))
            return f

    return Stub


def conforming(log):
    """sifting index (1-based) -> whether the extrema and crossings found after it agree within one"""
    out = []
    for i, x in enumerate(log):
        if x[0] == "sift":
            nxt = log[i + 1] if i + 1 < len(log) else None
            out.append(nxt is not None and nxt[0] == "ext" and abs(nxt[1] - nxt[2]) <= 1)
    return out


def stub(ctx, n, cfgs, limits, max_calls, pairs=((3, 3), (5, 3), (2, 1)), verdicts=(True, False)):
    log = []
    cfg = ctx.pick(cfgs, "cfg")
    e = make(ctx, stub_cls(ctx, n, pairs, max_calls, Table(), log, verdicts), **cfg)
    S = ctx.reals("S", n, -8, 8)
    keep = vals(S)
    lim = ctx.pick(limits, "maxImf")
    out = e.emd(e, S, None, lim)
    rws = outcome(ctx, out, keep, n, lim)
    ctx.prove_close("the input is not modified", vals(S), keep, 0)
    if lim in (1, 2):
        # a single mode: follow its siftings
        sift = [x for x in log if x[0] == "sift"]
        for a, b in zip(sift, sift[1:]):
            ctx.prove_close("each sifting subtracts the mean of the envelopes", b[1], [x - 0.5 * (u + l) if isinstance(x, float) else x - (u + l) * F(1, 2) for x, u, l in zip(*a[1:])])
        if sift:
            ctx.prove_close("the mode is the last proto-mode examined", vals(rws[0]), sift[-1][1])
        ended = any(x[0] == "ext" and x[1] <= 2 for x in log)
        cnt = len(sift)
        ctx.prove("never more than MAX_ITERATION siftings", cnt <= e.MAX_ITERATION and cnt <= e.maxIteration + 1, str(cnt))
        if cfg.get("FIXE_H") and not ended and cnt < min(e.MAX_ITERATION, e.maxIteration + 1):
            ok, run, want = conforming(log), 0, None
            for i, c in enumerate(ok):
                if i:
                    run = run + 1 if c else 0
                    if run >= cfg["FIXE_H"]:
                        want = i + 1
                        break
            ctx.prove("sifting stops exactly after FIXE_H consecutive conforming siftings", want == cnt, "%s of %s" % (want, ok))
        if cfg.get("FIXE"):
            ctx.prove("at most FIXE siftings", cnt <= cfg["FIXE"] + 1, str(cnt))
            if not ended and cnt < min(e.MAX_ITERATION, e.maxIteration + 1):
                ctx.prove("exactly FIXE siftings", cnt == cfg["FIXE"] + 1, str(cnt))


def extrema(ctx, n, mode, lo=-4, hi=4):
    if mode == "plateau":
        S = []
        for r in range(n):
            S += [ctx.real("L%d" % r, lo, hi)] * ctx.pick([1, 2, 3], "run length")
        if len(S) < 3:
            ctx.abort("too short")
        S = ctx.arr(S)
    else:
        S = ctx.reals("S", n, lo, hi)
    m = len(S)
    T = ctx.np.arange(m, dtype="float64")
    mp, mv, np_, nv, zer = cls(ctx).findExtrema(T, S)
    V = vals(S)
    ext = ref_extrema(ctx, V)
    for kind, pos, val in (("max", mp, mv), ("min", np_, nv)):
        want = [(a, b) for a, b, k in ext if k == kind]
        ctx.prove("exactly the local extrema, each once", len(pos) == len(want) and len(val) == len(want), "%s: %d reported, %d exist" % (kind, len(pos), len(want)))
        for k, (a, b) in enumerate(want):
            ctx.prove("extremum at its sample, plateau at its middle", ctx.Or(*[ctx.near(pos[k], i, 0) for i in {(a + b) // 2, (a + b + 1) // 2}]), str((a, b)))
            ctx.prove_close("value of the extremum", val[k], V[a], 0)
    ctx.prove("each sign change or run of zeros is one zero crossing", len(zer) == ref_nzero(ctx, V), str(len(zer)))


def envelopes(ctx, n, mode, kinds, nbsyms=(2,), T=None):
    kind = ctx.pick(kinds, "kind")
    e = make(ctx, splineKind=kind, nbsym=ctx.pick(nbsyms, "nbsym"))
    S = ray(ctx, n, 1) if mode == "ray" else ctx.reals("S", n, -4, 4)
    if mode == "zig":
        zigzag(ctx, S)
    TT = ctx.arr([F(i) for i in (T or range(n))])
    ext = ref_extrema(ctx, vals(S))
    e.DTYPE = S.dtype
    r = e.extractMaxMinSpline(TT, S)
    if len(ext) < 3:
        ctx.prove("too few extrema for envelopes are reported as such", all(isinstance(x, int) and x == -1 for x in r))
        return
    up, low, mx, mn = r
    for a, M in ((up, mx), (low, mn)):
        ctx.prove("one envelope value per sample", len(a) == n, str(len(a)))
        want = oracle(ctx, kind, M[0], M[1], TT)
        if want is not None:
            ctx.prove_close("the envelope is the interpolant of the requested kind", vals(a), vals(want))
    if T is None and kind != "akima":
        ref = ctx.mod("PyEMD.EMD").EMD(nbsym=e.nbsym, spline_kind=kind)
        ref.DTYPE = S.dtype
        for a, b in zip((up, low), ref.extract_max_min_spline(TT, S)):
            ctx.prove_close("the same envelopes as EMD", vals(a), vals(b))
    for what, env in (("max", up), ("min", low)):
        for a, b, k in ext:
            if k == what and a == b:
                ctx.prove_close("the envelope touches every extremum", env[a], S[a])


def refuse(ctx, n=5):
    e = make(ctx)
    S = ctx.reals("S", n, -4, 4)
    what = ctx.pick(["shorter axis", "longer axis", "spline"], "what")
    if what == "spline":
        zigzag(ctx, S)
        e.splineKind = "nonsense"
        T = None
    else:
        T = ctx.arr([F(i) for i in range(n - 1 if what == "shorter axis" else n + 1)])
    r = ctx.call(e.emd, e, S, T, allowed=(ValueError,))
    ctx.prove("an axis of another length or an unknown spline is refused", r[0] == "exc", what)


def rule(ctx, n):
    """stop_sifting: amplitude ratio below stop2 everywhere and above stop1 on at most the fraction stop3"""
    e = make(ctx, stop1=ctx.pick([0.05, 0.25], "stop1"), stop2=0.5, stop3=ctx.pick([0.05, 0.5], "stop3"))
    up = ctx.reals("U", n, -4, 4)
    low = ctx.reals("L", n, -4, 4)
    k = ctx.pick([2, 3, 5], "extrema")
    for i in range(n):
        ctx.assume(up[i] - low[i] >= F(1, 4))
    mean = ctx.arr([0.5 * (up[i] + low[i]) for i in range(n)])
    got = e.stop_sifting(ctx.arr([F(0)] * n), up, low, mean, k)
    r = []
    for i in range(n):
        amp = (up[i] - low[i]) * 0.5
        m = mean[i]
        a = m if ctx.truth(m >= 0) else -m
        for th in (F(1, 20) if e.stop1 == 0.05 else F(1, 4), F(1, 2)):
            d = a - amp * th
            if ctx.truth(d > 0):
                ctx.assume(d >= F(1, 1000))
            else:
                ctx.assume(d <= -F(1, 1000))
        r.append((ctx.truth(a > amp * (F(1, 20) if e.stop1 == 0.05 else F(1, 4))), ctx.truth(a > amp * F(1, 2))))
    want = k > 2 and not any(b for _, b in r) and not (sum(1 for a, _ in r if a) > n * e.stop3)
    ctx.prove("sifting stops exactly when the mean is small against the amplitude", bool(got) == want, "%s, expected %s" % (got, want))


def tasks(tier):
    q = tier == "quick"
    FX = [dict(FIXE=1), dict(FIXE=2)]
    t = [
        Task("fixe-n5", exact, dict(n=5, cfgs=FX[:1], limits=[None])),
        Task("zig-n6", exact, dict(n=6, mode="zig", cfgs=FX, limits=[1, 2])),
        Task("kinds-zig-n5", exact, dict(n=5, mode="zig", cfgs=FX[:1], limits=[2], kinds=["cubic", "akima", "linear", "slinear", "quadratic"])),
        Task("default-ray-n7", exact, dict(n=7, mode="ray", gap=F(1, 1000), cfgs=[dict(MAX_ITERATION=4), dict(maxIteration=2)], limits=[None, 1, 3])),
        Task("fixe_h-ray-n7", exact, dict(n=7, mode="ray", gap=F(1, 1000), cfgs=[dict(FIXE_H=1, MAX_ITERATION=4)], limits=[None, 2])),
        Task("riding-n8", exact, dict(n=8, mode="riding", gap=F(1, 1000), cfgs=FX, limits=[None, 1, 2, 3])),
        Task("axis-n5", exact, dict(n=5, mode="zig", T=[2, 3, 5, 6, 9], cfgs=FX[:1], limits=[2])),
        Task("nbsym-n5", exact, dict(n=5, mode="zig", nbsyms=[1, 3], cfgs=FX[:1], limits=[2])),
        Task("int-n5", exact, dict(n=5, mode="zig", dtype="int64", lo=-3, hi=3, cfgs=FX[:1], limits=[2])),
        Task("stub-fixe", stub, dict(n=2, cfgs=FX + [dict(FIXE=3)], limits=[None, 1, 2, 3], max_calls=4 if q else 6)),
        Task("stub-fixe_h", stub, dict(n=2, cfgs=[dict(FIXE_H=1, MAX_ITERATION=5), dict(FIXE_H=2, MAX_ITERATION=5), dict(FIXE_H=1, MAX_ITERATION=3)], limits=[1, 2, 3], max_calls=4 if q else 6)),
        Task("stub-default", stub, dict(n=2, cfgs=[dict(MAX_ITERATION=4), dict(MAX_ITERATION=3), dict(maxIteration=2, MAX_ITERATION=4)], limits=[None, 1, 2, 3], max_calls=4 if q else 6)),
        Task("stub-fixe_h-deep", stub, dict(n=1, cfgs=[dict(FIXE_H=2, MAX_ITERATION=50), dict(FIXE_H=3, MAX_ITERATION=50)], limits=[2], max_calls=7 if q else 10, pairs=((3, 3), (5, 3)))),
        Task("stub-fixe_h-long", stub, dict(n=1, cfgs=[dict(FIXE_H=9, MAX_ITERATION=50), dict(FIXE_H=20, MAX_ITERATION=50)], limits=[2], max_calls=26, pairs=((3, 3),))),
        Task("stub-fixe-long", stub, dict(n=1, cfgs=[dict(FIXE=k) for k in (5, 11, 30)], limits=[2], max_calls=34, pairs=((5, 3),))),
        Task("stub-default-long", stub, dict(n=1, cfgs=[dict(MAX_ITERATION=30), dict(maxIteration=12)], limits=[2], max_calls=34, pairs=((3, 3), ), verdicts=(False,))),
        Task("stub-limits", stub, dict(n=1, cfgs=[dict(FIXE=1)], limits=[3, 4, 5, 6, 8], max_calls=18, pairs=((5, 3),))),
        Task("extrema-n5", extrema, dict(n=5, mode="free")),
        Task("extrema-runs", extrema, dict(n=4, mode="plateau")),
        Task("envelopes-zig", envelopes, dict(n=6, mode="zig", kinds=["cubic", "linear", "akima"], nbsyms=[1, 2, 3])),
        Task("envelopes-n5", envelopes, dict(n=5, mode="free", kinds=["cubic"])),
        Task("envelopes-axis", envelopes, dict(n=6, mode="zig", kinds=["cubic", "linear"], T=[0, 1, 3, 4, 8, 9])),
        Task("envelopes-ray", envelopes, dict(n=9, mode="ray", kinds=["cubic", "quadratic", "slinear"])),
        Task("refuse", refuse),
        Task("rule", rule, dict(n=2)),
    ]
    if not q:
        t += [
            Task("fixe-n6", exact, dict(n=6, cfgs=FX[:1], limits=[None]), weight=2),
            Task("zig-n8", exact, dict(n=8, mode="zig", cfgs=FX, limits=[2, 3]), weight=2),
            Task("extrema-n7", extrema, dict(n=7, mode="free"), weight=2),
            Task("rule-n4", rule, dict(n=4)),
        ]
    return t
