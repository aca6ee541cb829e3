"""Image decompositions: components add up to the image, limits hold, extrema and envelopes are those of the image."""
from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.EMD2d", "PyEMD.BEMD"], budget=dict(quick=60, thorough=300),
    bounds=["driver: 2x2 and 2x3 images with any pixels, arbitrary extrema counts, envelopes and verdicts, at most 4 siftings; mode limits 1..3 and none",
            "extrema: images of 3x3..4x4 free pixels, 5x6 one-parameter families", "mirroring: all shapes up to 4x4",
            "envelopes: 3x3..4x4 free pixels or 5x5 families, surfaces replaced by an arbitrary function through the given points"],
    outside=["the fitted surfaces (SmoothBivariateSpline and Rbf are arbitrary functions of their data)", "termination without a mode limit", "BEMD's envelopes (known not to work, see DESIGN)", "floating-point rounding"],
    stubs=["driver: extrema, envelopes and verdicts replaced by solver-chosen results", "envelopes: spline_points replaced by an arbitrary interpolant"],
)


def c2(ctx):
    return ctx.mod("PyEMD.EMD2d").EMD2D


def cb(ctx):
    return ctx.mod("PyEMD.BEMD").BEMD


def flat2(M):
    return [M[i][j] for i in range(len(M)) for j in range(len(M[i]))]


def image(ctx, shape, lo=-8, hi=8, dtype="float64"):
    n, m = shape
    V = ctx.reals("P", n * m, lo, hi) if dtype == "float64" else ctx.ints("P", n * m, lo, hi, dtype)
    return V.reshape((n, m))


PEAKS = ((5, 5), (6, 5), (4, 9), (5, 1))


class Again(Table):
    """answers a second run with those of the first, provided it asks the same questions"""

    def __init__(self, first):
        self.t = {k: [k, 0, first.t[k]] for k in first.t}
        self.n = 0


def ask(ctx, tab, what, key, make):
    t = tab.t[what]
    if not isinstance(tab, Again):
        return ctx.memo(t, key, make)
    k, i, old = t
    t[1] += 1
    if i >= len(old):
        ctx.prove("contrast and brightness do not change the number of siftings", False, what)
        ctx.abort("stop here")
    ctx.prove_close("contrast and brightness do not change the proto-modes", key, old[i][0], F(1, 10**6))
    return old[i][1]


def stubbed(ctx, which, shape, tab, log, max_calls, peaks, verdicts=(True, False)):
    np = ctx.np
    Base = c2(ctx) if which == "EMD2D" else cb(ctx)

    class Stub(Base):
        def fresh(self):
            tab.n += 1
            if tab.n > max_calls:
                ctx.abort("more siftings than the bound")
            n, m = shape
            return ctx.reals("U%d_" % tab.n, n * m, -8, 8).reshape(shape), ctx.reals("L%d_" % tab.n, n * m, -8, 8).reshape(shape)

        def ext(self, img):
            a, b = ask(ctx, tab, "ext", flat2(img), lambda: ctx.pick(peaks, "extrema"))
            log.append(("ext", a, b))
            return (np.arange(a), np.arange(a)), (np.arange(b), np.arange(b))

        def env(self, img):
            a, b = ask(ctx, tab, "env", flat2(img), self.fresh)
            log.append(("sift", flat2(img), flat2(a), flat2(b)))
            return a.copy(), b.copy()

        def check_proto_imf(self, imf, old, mean):
            f = ask(ctx, tab, "check", flat2(imf), lambda: ctx.pick(verdicts, "accept"))
            log.append(("check", f))
            return f

        if which == "EMD2D":

            def find_extrema(self, img):
                return self.ext(img)

            def extract_max_min_spline(self, img):
                return self.env(img)
        else:

            def find_extrema_positions(self, img):
                return self.ext(img)

            def extract_max_min_spline(self, img, a, b):
                return self.env(img)

    return Stub


def setup(e, cfg):
    for k, v in cfg.items():
        setattr(e, k, v)
    return e


def outcome(ctx, out, keep, shape, limit):
    n, m = shape
    ctx.prove("one component per row, each of the image's shape", len(out.shape) == 3 and tuple(out.shape[1:]) == shape, str(out.shape))
    tot = [0] * (n * m)
    for k in range(len(out)):
        tot = [a + b for a, b in zip(tot, flat2(out[k]))]
    ctx.prove_close("components add up to the image", tot, keep, F(1, 10**5))
    if limit > 0:
        ctx.prove("no more components than asked for, plus the remainder", len(out) <= limit + 1, "%d for %d" % (len(out), limit))


def driver(ctx, which, shape, cfgs, limits, max_calls, how="call", dtype="float64", lo=-8, hi=8, peaks=None, verdicts=(True, False)):
    log = []
    cfg = ctx.pick(cfgs, "cfg")
    peaks = peaks or (PEAKS[:3] if which == "EMD2D" else ((2, 2), (1, 3), (2, 1)))
    e = setup(stubbed(ctx, which, shape, Table(), log, max_calls, peaks, verdicts)(), cfg)
    img = image(ctx, shape, lo, hi, dtype)
    if which == "EMD2D":
        # pixels that differ
        P = [1.0 * p for p in flat2(img)]
        ctx.assume(P[0] - P[-1] >= (F(1, 4) if dtype == "float64" else 1))
    keep = [1.0 * p for p in flat2(img)]
    lim = ctx.pick(limits, "max_imf")
    out = e(img, lim) if how == "call" else (e.emd if which == "EMD2D" else e.bemd)(img, max_imf=lim)
    outcome(ctx, out, keep, shape, lim)
    ctx.prove_close("the image is not modified", flat2(img), keep, 0)
    sift = [x for x in log if x[0] == "sift"]
    if lim == 1:
        MI = e.MAX_ITERATION
        ctx.prove("never more than MAX_ITERATION siftings per mode", len(sift) <= MI, str(len(sift)))
        few = any(x[0] == "ext" and (min(x[1], x[2]) <= (4 if which == "EMD2D" else 1)) for x in log)
        if cfg.get("FIXE"):
            ctx.prove("never more than FIXE siftings after the first", len(sift) <= cfg["FIXE"] + 1, str(len(sift)))
            if not few and MI > cfg["FIXE"] + 1:
                ctx.prove("as many siftings as FIXE asks for", len(sift) == cfg["FIXE"] + 1, str(len(sift)))
        elif cfg.get("FIXE_H") and not few and len(sift) < MI:
            run, want = 0, None
            for i, x in enumerate([x for x in log if x[0] == "check"]):
                run = run + 1 if x[1] else 0
                if run >= cfg["FIXE_H"]:
                    want = i + 2
                    break
            ctx.prove("sifting stops after FIXE_H consecutive accepted proto-modes", want == len(sift), "%s %s" % (want, len(sift)))
        elif not cfg.get("FIXE_H") and not few and len(sift) < MI:
            ctx.prove("sifting stops with the first accepted proto-mode", [x[1] for x in log if x[0] == "check"] == [False] * (len(sift) - 1) + [True], str(log))
        if which == "BEMD":
            for a, b in zip(sift, sift[1:]):
                ctx.prove_close("each sifting subtracts the mean of the envelopes", b[1], [x - 0.5 * (u + l) if isinstance(x, float) else x - (u + l) * F(1, 2) for x, u, l in zip(*a[1:])])
            if sift and len(out) > 1:
                a = sift[-1]
                ctx.prove_close("the mode is the last proto-mode", flat2(out[0]), [x - 0.5 * (u + l) if isinstance(x, float) else x - (u + l) * F(1, 2) for x, u, l in zip(*a[1:])])
    ctx.cover("components=%d" % len(out))


def equivariant(ctx, shape, cfgs, limits, max_calls):
    """a*image + b has a*components, the offset on the last: brightness and contrast do not change the decomposition"""
    cfg = ctx.pick(cfgs, "cfg")
    tab = Table()
    n, m = shape
    mid = vals(ctx.reals("P", n * m - 2, 0, 1))
    flat = [F(1)] + mid + [F(0)]
    V = ctx.arr(flat).reshape(shape)
    a, b = ctx.pick([(4, 0), (4, -8), (0.25, 2)], "contrast, brightness")
    lim = ctx.pick(limits, "max_imf")
    W = ctx.arr([x * F(a) + b if not isinstance(x, float) else x * a + b for x in flat]).reshape(shape)
    o1 = setup(stubbed(ctx, "EMD2D", shape, tab, [], max_calls, PEAKS[:3])(), cfg).emd(V, lim)
    o2 = setup(stubbed(ctx, "EMD2D", shape, Again(tab), [], max_calls, PEAKS[:3])(), cfg).emd(W, lim)
    ctx.prove("contrast and brightness do not change the number of components", len(o1) == len(o2), "%d %d" % (len(o1), len(o2)))
    for k in range(len(o1)):
        ctx.prove_close("contrast and brightness carry over to the components", flat2(o2[k]), [x * a + (b if k == len(o1) - 1 else 0) for x in flat2(o1[k])], F(1, 10**5))


def constant(ctx, shape, limits):
    v = ctx.real("v", -8, 8)
    n, m = shape
    img = ctx.arr([[v] * m for _ in range(n)])
    lim = ctx.pick(limits, "max_imf")
    out = c2(ctx)()(img, lim)
    outcome(ctx, out, [v] * (n * m), shape, lim)


def mirror(ctx, shapes):
    shape = ctx.pick(shapes, "shape")
    n, m = shape
    img = image(ctx, shape)
    big = c2(ctx).prepare_image(img)
    ctx.prove("three times as large each way", tuple(big.shape) == (3 * n, 3 * m), str(big.shape))

    def src(i, k):
        i = i % (2 * k)
        return i if i < k else 2 * k - 1 - i

    for i in range(3 * n):
        for j in range(3 * m):
            ctx.prove_close("each panel is the mirror image of its neighbours", big[i][j], img[src(i - n, n)][src(j - m, m)], 0)


FAMILY = ([3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3, 3, 8, 3, 2, 7],
          [2, -7, 1, 8, -2, 8, 1, -8, 2, 8, -4, 5, 9, -4, 5, 2, -3, 5, 3, -6, 0, 2, 8, -7, 4, 7, 1, -3, 5, -2])


def pic(ctx, shape, mode):
    n, m = shape
    if mode == "free":
        return image(ctx, shape, -4, 4)
    s = ctx.real("s", -1, 1)
    return ctx.arr([[s * FAMILY[1][(i * m + j) % 30] + FAMILY[0][(i * m + j) % 30] for j in range(m)] for i in range(n)])


def extrema(ctx, shape, mode="free"):
    """EMD2D: exactly the interior pixels not exceeded (undercut) by any of their eight neighbours"""
    n, m = shape
    img = pic(ctx, shape, mode)
    mn, mx = c2(ctx).find_extrema(img)
    for name, got, sg in (("minimum", mn, -1), ("maximum", mx, 1)):
        g = set(zip([int(x) for x in got[0]], [int(x) for x in got[1]]))
        ctx.prove("each extremum once", len(g) == len(got[0]) == len(got[1]))
        for i in range(n):
            for j in range(m):
                inner = 0 < i < n - 1 and 0 < j < m - 1
                want = ctx.And(*[sg * img[i][j] >= sg * img[a][b] for a in range(i - 1, i + 2) for b in range(j - 1, j + 2) if (a, b) != (i, j)]) if inner else False
                if (i, j) in g:
                    ctx.prove("every reported %s is one" % name, want, str((i, j)))
                else:
                    ctx.prove("every %s is reported" % name, ctx.Not(want) if inner else True, str((i, j)))


def bextrema(ctx, shape, mode="free"):
    """BEMD: exactly the pixels belonging to a peak that rises above its surroundings"""
    n, m = shape
    img = pic(ctx, shape, mode)
    P = [[img[i][j] for j in range(m)] for i in range(n)]
    for a in range(n * m):  # levels in steps larger than the height the method ignores, or equal
        for b in range(a):
            d = P[a // m][a % m] - P[b // m][b % m]
            if not ctx.truth(d == 0):
                if ctx.truth(d > 0):
                    ctx.assume(d >= 1)
                else:
                    ctx.assume(d <= -1)
    mn, mx = cb(ctx).find_extrema_positions(img)

    def peaks(sg):
        """pixels of connected plateaus without a higher neighbour"""
        seen, out = set(), set()
        for c in [(i, j) for i in range(n) for j in range(m)]:
            if c in seen:
                continue
            comp, todo, top = {c}, [c], True
            while todo:
                i, j = todo.pop()
                for a in range(max(0, i - 1), min(n, i + 2)):
                    for b in range(max(0, j - 1), min(m, j + 2)):
                        if (a, b) in comp or (a, b) == (i, j):
                            continue
                        d = (P[a][b] - P[i][j]) * sg
                        if ctx.truth(d == 0):
                            comp.add((a, b))
                            todo.append((a, b))
                        elif ctx.truth(d > 0):
                            top = False
            seen |= comp
            if top:
                out |= comp
        return out

    for name, got, sg in (("minima", mn, -1), ("maxima", mx, 1)):
        g = set(zip([int(x) for x in got[1]], [int(x) for x in got[0]]))
        w = peaks(sg)
        ctx.prove("exactly the %s, as (column, row)" % name, g == w and len(got[0]) == len(g), "%s, expected %s" % (sorted(g), sorted(w)))


def envelopes(ctx, shape, mode="free"):
    """the envelopes are surfaces through the values at the extrema of the mirrored image, evaluated on the image"""
    n, m = shape
    calls = []

    class Rec(c2(ctx)):
        @classmethod
        def spline_points(cls, X, Y, Z, xi, yi):
            pts = {(int(x), int(y)): z for x, y, z in zip(X, Y, Z)}
            calls.append(pts)
            return ctx.arr([[pts.get((int(x), int(y)), 100 + len(calls)) for y in yi] for x in xi])

    img = pic(ctx, shape, mode)
    low, up = Rec().extract_max_min_spline(img)
    ctx.prove("two surfaces", len(calls) == 2, str(len(calls)))
    big = c2(ctx).prepare_image(img)
    want = c2(ctx).find_extrema(big)
    for name, env, pts, w, miss in (("lower", low, calls[0], want[0], 101), ("upper", up, calls[1], want[1], 102)):
        ctx.prove("one envelope value per pixel", tuple(env.shape) == shape, str(env.shape))
        w = set(zip([int(x) for x in w[0]], [int(x) for x in w[1]]))
        ctx.prove("the %s envelope goes through exactly the extrema of the mirrored image" % name, set(pts) == w, "%s %s" % (sorted(pts), sorted(w)))
        for p, z in pts.items():
            ctx.prove_close("the envelope takes the image's values there", z, big[p[0]][p[1]], 0)
        for i in range(n):
            for j in range(m):
                if (i + n, j + m) in w:
                    ctx.prove_close("envelopes touch the image at its extrema", env[i][j], img[i][j], 0)
                else:
                    ctx.prove_close("the envelope is evaluated at the image's pixels", env[i][j], miss, 0)


def rule(ctx, which, shape):
    """check_proto_imf: flat mean, no change, or a small proto-mode"""
    n, m = shape
    e = setup((c2(ctx) if which == "EMD2D" else cb(ctx))(), dict(mean_thr=0.25, mse_thr=0.25))
    k = n * m
    new = ctx.reals("N", k, -2, 2)
    old = ctx.reals("O", k, -2, 2)
    mean = ctx.reals("M", k, -2, 2)
    how = ctx.pick(["far", "same"], "old")
    if how == "same":
        old = new.copy()
    else:
        ctx.assume(old[0] - new[0] >= F(1, 2))
    got = e.check_proto_imf(new.reshape(shape), old.reshape(shape), mean.reshape(shape))

    def side(d):
        t = ctx.truth(d > 0)
        ctx.assume(d >= F(1, 1000) if t else d <= -F(1, 1000))
        return t

    def ab(x):
        return x if ctx.truth(x >= 0) else -x

    mm = sum(vals(mean)) * F(1, k) if not isinstance(mean[0], float) else sum(vals(mean)) / k
    flat = all(not side(ab(x - mm) - F(1, 4)) for x in vals(mean))
    small = not side(sum(ab(x) for x in vals(new)) - F(1, 4) * k)
    want = flat or how == "same" or small
    if which == "EMD2D" and not want:
        want = not side(sum(x * x for x in vals(new)) - F(1, 4) * k)
    ctx.prove("a proto-mode is accepted exactly when its mean is flat, it stopped changing, or it is small", bool(got) == want, "%s, expected %s" % (got, want))


def options(ctx):
    C = c2(ctx)
    k = ctx.int("k", 1, 50)
    e = C(FIXE=k, mse_thr=0.5, nonsense=3)
    ctx.prove("options are taken", ctx.And(e.FIXE == k, e.mse_thr == 0.5, e.FIXE_H == 0))
    ctx.prove("unknown options are ignored", not hasattr(e, "nonsense"))


def tasks(tier):
    q = tier == "quick"
    FX = [dict(FIXE=1, MAX_ITERATION=9), dict(FIXE=2, MAX_ITERATION=9)]
    D = [dict(FIXE=0, MAX_ITERATION=3)]
    H = [dict(FIXE=0, FIXE_H=1, MAX_ITERATION=4), dict(FIXE=0, FIXE_H=2, MAX_ITERATION=4)]
    mc = 3 if q else 5
    t = []
    for w in ("EMD2D", "BEMD"):
        t += [
            Task("sum-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=FX + D, limits=[-1, 1, 2], max_calls=mc)),
            Task("count-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=FX + D + H, limits=[1], max_calls=4 if q else 6, how="method")),
            Task("shape-%s" % w, driver, dict(which=w, shape=(2, 3), cfgs=D, limits=[1, 2, 3], max_calls=2 if q else 4)),
            Task("limits-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=FX[:1], limits=[3, 4, 5, 7], max_calls=16, peaks=((6, 6),))),
            Task("accepted-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=[dict(FIXE=0, MAX_ITERATION=9)], limits=[3, 5], max_calls=12, peaks=((6, 6),), verdicts=(True,))),
            Task("fixe-long-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=[dict(FIXE=k, MAX_ITERATION=50) for k in (4, 9, 20)], limits=[1], max_calls=24, peaks=((6, 6),))),
            Task("fixe_h-deep-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=[dict(FIXE=0, FIXE_H=k, MAX_ITERATION=50) for k in (2, 3)], limits=[1], max_calls=6 if q else 9, peaks=((6, 6),))),
            Task("fixe_h-long-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=[dict(FIXE=0, FIXE_H=k, MAX_ITERATION=50) for k in (7, 15)], limits=[1], max_calls=18, peaks=((6, 6),), verdicts=(True,))),
            Task("never-%s" % w, driver, dict(which=w, shape=(1, 2), cfgs=[dict(FIXE=0, MAX_ITERATION=k) for k in (6, 15)], limits=[1], max_calls=18, peaks=((6, 6),), verdicts=(False,))),
            Task("rule-%s" % w, rule, dict(which=w, shape=(1, 2) if q else (2, 2))),
        ]
    t += [
        Task("int8-EMD2D", driver, dict(which="EMD2D", shape=(1, 2), cfgs=FX[:1], limits=[1, 2], max_calls=2, dtype="int8", lo=-128, hi=127)),
        Task("uint8-EMD2D", driver, dict(which="EMD2D", shape=(1, 2), cfgs=FX[:1], limits=[1, 2], max_calls=2, dtype="uint8", lo=0, hi=255)),
        Task("int16-BEMD", driver, dict(which="BEMD", shape=(1, 2), cfgs=FX[:1], limits=[1, 2], max_calls=2, dtype="int16", lo=-2**15, hi=2**15 - 1)),
        Task("contrast", equivariant, dict(shape=(1, 3), cfgs=FX[:1] + D, limits=[-1, 1, 2], max_calls=mc)),
        Task("constant", constant, dict(shape=(3, 3), limits=[-1, 1])),
        Task("mirror", mirror, dict(shapes=[(1, 1), (1, 3), (2, 3), (3, 2), (4, 4)])),
        Task("extrema-3x3", extrema, dict(shape=(3, 3))),
        Task("extrema-3x4", extrema, dict(shape=(3, 4))),
        Task("extrema-5x6", extrema, dict(shape=(5, 6), mode="family")),
        Task("bextrema-2x2", bextrema, dict(shape=(2, 2))),
        Task("bextrema-3x3", bextrema, dict(shape=(3, 3), mode="family")),
        Task("envelopes-2x2", envelopes, dict(shape=(2, 2))),
        Task("envelopes-4x5", envelopes, dict(shape=(4, 5), mode="family")),
        Task("options", options),
    ]
    if not q:
        t += [
            Task("extrema-4x4", extrema, dict(shape=(4, 4)), weight=2),
            Task("envelopes-3x3", envelopes, dict(shape=(3, 3)), weight=2),
            Task("bextrema-2x3", bextrema, dict(shape=(2, 3)), weight=2),
        ]
    return t
