"""White-noise significance test."""
import math

from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.checks"], budget=dict(quick=60, thorough=200),
    bounds=["rows of 4-5 free samples, or fixed patterns of 8-12 samples with any positive amplitudes; 1-3 rows; alpha from a list"],
    outside=["verdicts within 1e-6 (relative) of the decision limit", "rows of zero energy (their logarithm does not exist)", "the value of the a-posteriori scaling factor"],
    stubs=["log/exp comparisons decided exactly through their inverse; scipy find_peaks encoded by its definition; norm.ppf evaluated"],
)
PAT = [
    [0, 2, 0, -2, 0, 2, 0, -2],
    [1, 3, -1, 2, -3, -1, -2, 1],  # a peak below zero
    [1, 2, 3, 4, 5, 6, 7, 8],  # no peak
    [-2, 0, -1, 3, 3, -1, 0, -1],  # peaks at zero, a plateau
    [3, -1, 2, -2, 3, -3, 1, -1],
    [-3, -1, -2, -1, -3, -2, -4, -1],  # only peaks below zero
]


def npeaks(ctx, x):
    """local maxima (plateaus once) of height at least zero; ends never count"""
    return sum(1 for a, b, k in ref_extrema(ctx, x) if k == "max" and ctx.truth(x[a] >= 0))


def limits(ctx, n, peaks, alpha):
    from scipy import stats

    T = math.log(n / peaks if peaks else n)
    w = abs(stats.norm.ppf((1 - alpha) / 2)) * math.sqrt(2 / n) * math.exp(T / 2)
    return math.exp(-T - w), math.exp(-T + w)


def density(x):
    s = x[0] * x[0]
    for v in x[1:]:
        s = s + v * v
    return s / len(x)


def apriori(ctx, data, alphas):
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    M, rs = data(ctx)
    n = len(rs[0])
    alpha = ctx.pick(alphas, "alpha")
    for r in rs:
        ctx.assume(density(r) >= F(1, 10**4))
    out = fn(M, test_name="apriori", alpha=alpha)
    ctx.prove("one verdict per row, numbered from one", sorted(out.keys()) == list(range(1, len(rs) + 1)), str(out))
    for k, r in enumerate(rs):
        lo, hi = limits(ctx, n, npeaks(ctx, r), alpha)
        d = density(r)
        ctx.prove("verdicts are 0 or 1", out[k + 1] in (0, 1) and not isinstance(out[k + 1], bool), str(out))
        inside = ctx.And(d >= lo * (1 + 1e-6), d <= hi * (1 - 1e-6))
        outside = ctx.Or(d <= lo * (1 - 1e-6), d >= hi * (1 + 1e-6))
        ctx.prove("inside the white-noise band is not significant", ctx.Implies(inside, out[k + 1] == 0), "row %d" % k)
        ctx.prove("outside the white-noise band is significant", ctx.Implies(outside, out[k + 1] == 1), "row %d" % k)
        ctx.cover("verdict %d" % out[k + 1])


def free(n, m):
    def f(ctx):
        rs = [ctx.reals("x%d_" % k, n, -4, 4) for k in range(m)]
        return ctx.np.vstack(rs), [vals(r) for r in rs]

    return f


def pats(m, hi=50):
    def f(ctx):
        rs = []
        for k in range(m):
            a = ctx.real("a%d" % k, F(1, 100), hi)
            rs.append([a * v for v in ctx.pick(PAT if k == 0 else PAT[k - 1 : k + 1], "pattern")])
        return ctx.np.vstack([ctx.arr(r) for r in rs]), rs

    return f


def long(ns):
    """many-sample rows, one free amplitude"""

    def f(ctx):
        n = ctx.pick(ns, "samples")
        p = ctx.pick([1, 3], "pattern")
        a = ctx.real("a", F(1, 100), 50)
        r = [a * PAT[p][i % 8] for i in range(n)]
        return ctx.np.vstack([ctx.arr(r)]), [r]

    return f


def posteriori(ctx, m, alphas):
    """one-sided, monotone in the row's energy, blind to other rows' energies"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    alpha = ctx.pick(alphas, "alpha")
    r = ctx.pick(list(range(1, m + 1)), "rescaling row")
    which = ctx.pick([0, 1, 2], "patterns")
    pt = [PAT[(which + k) % len(PAT)] for k in range(m)]
    A = [ctx.real("a%d" % k, F(1, 10**4), 1000) for k in range(m)]
    B = [ctx.real("b%d" % k, F(1, 10**4), 1000) for k in range(m)]
    mk = lambda amp: ctx.np.vstack([ctx.arr([a * v for v in p]) for a, p in zip(amp, pt)])
    x, y = [fn(mk(z), test_name="aposteriori", rescaling_imf=r, alpha=alpha) for z in (A, B)]
    for o in (x, y):
        ctx.prove("one verdict per row, numbered from one", sorted(o.keys()) == list(range(1, m + 1)) and all(v in (0, 1) for v in o.values()), str(o))
    for k in range(m):
        if k == r - 1:
            ctx.prove("the rescaling row's verdict does not depend on the other rows", ctx.Implies(A[k] == B[k], x[k + 1] == y[k + 1]))
            continue
        # same rescaling row: more energy never makes a row less significant, equal energy decides alone
        same = A[r - 1] == B[r - 1]
        ctx.prove("more energy never makes a row insignificant", ctx.Implies(ctx.And(same, A[k] <= B[k]), x[k + 1] <= y[k + 1]), "row %d" % (k + 1))
    ctx.cover(str(sorted(x.items())))


def shared(ctx, alphas):
    """rows are held against their own upper limits, under one common rescaling"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    alpha = ctx.pick(alphas, "alpha")
    pt = [PAT[i] for i in ctx.pick([(0, 1, 2), (2, 3, 0), (1, 4, 5), (4, 0, 3)], "patterns")]
    r = ctx.pick([1, 2, 3], "rescaling row")
    R_ = [[ctx.real("a%d" % k, F(1, 10**4), 1000) * v for v in p] for k, p in enumerate(pt)]
    out = fn(ctx.np.vstack([ctx.arr(z) for z in R_]), test_name="aposteriori", rescaling_imf=r, alpha=alpha)
    rel = [density(x) / limits(ctx, 8, npeaks(ctx, x), alpha)[1] for x in R_]
    for i in range(3):
        for j in range(3):
            if i != j and r - 1 not in (i, j):
                ctx.prove("a significant row lies higher above its limit than an insignificant one", ctx.Implies(out[i + 1] > out[j + 1], rel[i] >= rel[j] * (1 - 1e-6)), "%s" % out)


def others(ctx):
    """a verdict does not depend on the shape of third rows"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    test = ctx.pick(["apriori", "aposteriori"], "test")
    A = [ctx.real("a%d" % k, F(1, 100), 50) for k in range(3)]
    k, r, o = ctx.pick([(0, 1, 2), (1, 0, 2), (2, 1, 0), (0, 2, 1), (2, 0, 1), (1, 2, 0)], "roles")
    res = []
    for p in (1, 2, 5):
        rs = [None] * 3
        rs[k], rs[r], rs[o] = [A[0] * v for v in PAT[0]], [A[1] * v for v in PAT[3]], [A[2] * v for v in PAT[p]]
        res.append(fn(ctx.np.vstack([ctx.arr(z) for z in rs]), test_name=test, rescaling_imf=r + 1))
    for x in res[1:]:
        ctx.prove("a verdict does not depend on third rows", x[k + 1] == res[0][k + 1] and x[r + 1] == res[0][r + 1], str(res))


def helpers(ctx):
    """the two decision rules, for any energy density"""
    c = ctx.mod("PyEMD.checks")
    from scipy import stats

    d = ctx.real("d", -20, 20)
    T = ctx.pick([0.0, 0.5, 1.5, 3.0], "log period")
    n = ctx.pick([4, 100, 5000], "samples")
    alpha = ctx.pick([0.95, 0.5, 0.999], "alpha")
    w = abs(stats.norm.ppf((1 - alpha) / 2)) * math.sqrt(2 / n) * math.exp(T / 2)
    ctx.assume(ctx.And(*[ctx.Or(d >= x + 1e-6, d <= x - 1e-6) for x in (-T - w, -T + w)]))
    ctx.prove("a priori: significant iff outside the band", ctx.Iff(bool(c.significance_apriori(d, T, n, alpha)), ctx.Or(d < -T - w, d > -T + w)))
    ctx.prove("a posteriori: significant iff above the upper limit", ctx.Iff(bool(c.significance_aposteriori(d, T, n, alpha)), d > -T + w))


def default(ctx):
    """defaults: a-posteriori, first row, alpha 0.95"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    A = [ctx.real("a%d" % k, F(1, 100), 50) for k in range(2)]
    mk = lambda: ctx.np.vstack([ctx.arr([a * v for v in p]) for a, p in zip(A, PAT)])
    x = fn(mk())
    y = fn(mk(), test_name="aposteriori", rescaling_imf=1, alpha=0.95)
    ctx.prove("defaults are the documented ones", x == y, "%s %s" % (x, y))


def relabel(ctx, m):
    """reordering the rows (and the rescaling number with them) reorders the verdicts"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    test = ctx.pick(["apriori", "aposteriori"], "test")
    r = ctx.pick(list(range(m)), "rescaling row")
    A = [ctx.real("a%d" % k, F(1, 100), 50) for k in range(m)]
    R_ = [[a * v for v in p] for a, p in zip(A, PAT)]
    s = ctx.pick(list(range(1, m)), "rotation")
    perm = [(k + s) % m for k in range(m)]
    x = fn(ctx.np.vstack([ctx.arr(z) for z in R_]), test_name=test, rescaling_imf=r + 1)
    y = fn(ctx.np.vstack([ctx.arr(R_[k]) for k in perm]), test_name=test, rescaling_imf=perm.index(r) + 1)
    ctx.prove("verdicts follow their rows", all(y[j + 1] == x[k + 1] for j, k in enumerate(perm)), "%s %s" % (x, y))


def alphas(ctx, test):
    """a higher confidence level never makes a row significant"""
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    M, rs = pats(2)(ctx)
    lo, hi = ctx.pick([(0.5, 0.9), (0.9, 0.95), (0.95, 0.999), (0.05, 0.5)], "levels")
    x, y = fn(M, test_name=test, alpha=lo), fn(M, test_name=test, alpha=hi)
    for k in range(2):
        if test == "aposteriori" and k == 0:
            continue
        ctx.prove("a higher confidence level never makes a row significant", x[k + 1] >= y[k + 1], "%s %s" % (x, y))


def void(ctx):
    """nothing to test: None; NaN anywhere: None; bad arguments: AssertionError"""
    np = ctx.np
    fn = ctx.mod("PyEMD.checks").whitenoise_check
    test = ctx.pick(["apriori", "aposteriori"], "test")
    what = ctx.pick(["no rows", "no samples", "nan", "alpha", "alpha type", "name", "index", "index type", "list"], "what")
    X = [[ctx.real("x%d_%d" % (k, i), -4, 4) for i in range(4)] for k in range(2)]
    ok = np.vstack([ctx.arr(r) for r in X])
    if what == "no rows":
        ctx.prove("no rows give no verdict", fn(np.empty((0, 4)), test_name=test) is None)
    elif what == "no samples":
        ctx.prove("no samples give no verdict", fn(np.empty((2, 0)), test_name=test) is None)
    elif what == "nan":
        ok[ctx.pick([0, 1], "row"), ctx.pick([0, 1, 2, 3], "sample")] = float("nan")
        ctx.prove("NaN gives no verdict", fn(ok, test_name=test, rescaling_imf=ctx.pick([1, 2], "r")) is None)
    else:
        kw = {"alpha": dict(alpha=ctx.pick([0.0, 1.0, -0.5, 1.5], "alpha")) if what == "alpha" else {}, "alpha type": dict(alpha="0.9"), "name": dict(test_name=ctx.pick(["", "Apriori", "posteriori"], "name")) if what == "name" else {},
              "index": dict(rescaling_imf=ctx.pick([0, -1, 3], "r")) if what == "index" else {}, "index type": dict(rescaling_imf=1.0), "list": {}}[what]
        a = X if what == "list" else ok
        kw = dict(dict(test_name=test), **kw)
        r = ctx.call(fn, a, allowed=(AssertionError,), **kw)
        ctx.prove("bad arguments are refused", r[0] == "exc", "%s %s" % (what, kw))


def period(ctx, n):
    """mean period = samples per non-negative peak"""
    c = ctx.mod("PyEMD.checks")
    x = ctx.reals("x", n, -4, 4)
    k = npeaks(ctx, vals(x))
    ctx.prove_close("mean period is the number of samples per non-negative peak", c.mean_period(x), F(n, k) if k else F(n))
    ctx.prove_close("energy is the sum of squares", c.energy(x), density(vals(x)) * n)


def tasks(tier):
    q = tier == "quick"
    AL = [0.95, 0.5, 0.999]
    t = [
        Task("period-n5", period, dict(n=5)),
        Task("apriori-free-n4", apriori, dict(data=free(4, 1), alphas=AL)),
        Task("apriori-free-2", apriori, dict(data=free(3, 2), alphas=[0.95])),
        Task("apriori-patterns", apriori, dict(data=pats(3), alphas=AL)),
        Task("apriori-long", apriori, dict(data=long([16, 64, 200, 1000]), alphas=[0.95, 0.9])),
        Task("aposteriori-1", posteriori, dict(m=1, alphas=[0.95])),
        Task("aposteriori-2", posteriori, dict(m=2, alphas=AL)),
        Task("aposteriori-3", posteriori, dict(m=3, alphas=[0.95])),
        Task("aposteriori-shared", shared, dict(alphas=AL)),
        Task("others", others),
        Task("helpers", helpers),
        Task("defaults", default),
        Task("relabel-3", relabel, dict(m=3)),
        Task("alphas-apriori", alphas, dict(test="apriori")),
        Task("alphas-aposteriori", alphas, dict(test="aposteriori")),
        Task("void", void),
    ]
    if not q:
        t += [Task("apriori-free-n5", apriori, dict(data=free(5, 1), alphas=AL), weight=2), Task("apriori-free-2-n4", apriori, dict(data=free(4, 2), alphas=[0.95]), weight=2), Task("period-n7", period, dict(n=7), weight=2), Task("aposteriori-4", posteriori, dict(m=4, alphas=[0.9]))]
    return t
