from fractions import Fraction as F

from symx.harness import Task

EMD_MODS = ["PyEMD", "PyEMD.EMD"]
ENS_MODS = ["PyEMD", "PyEMD.EMD", "PyEMD.EEMD", "PyEMD.CEEMDAN"]
KINDS = ["cubic", "akima", "pchip", "cubic_hermite", "linear", "slinear", "quadratic"]


SMALL_LARGE = [2.0**-40, 2.0**-24, 2.0**30]  # amplitudes (powers of two: exact)


def emd_cls(ctx):
    return ctx.mod("PyEMD.EMD").EMD


def sum_rows(ctx, M, n):
    """sum of the rows of a 2-d result, written independently of the code"""
    out = []
    for i in range(n):
        s = 0
        for k in range(len(M)):
            s = s + M[k][i]
        out.append(s)
    return out


def vals(x):
    return [x[i] for i in range(len(x))]


def rows(M):
    return [vals(M[k]) for k in range(len(M))]


# ---------------------------------------------------------------------------
# reference definitions, by case analysis on the samples


def ref_extrema(ctx, S):
    """[(first, last, kind)] runs of equal samples strictly above (max) or below (min)
    both neighbouring runs; runs touching either end are not extrema"""
    n = len(S)
    runs = []
    i = 0
    while i < n:
        j = i
        while j + 1 < n and ctx.truth(S[j + 1] == S[i]):
            j += 1
        runs.append((i, j))
        i = j + 1
    out = []
    for k in range(1, len(runs) - 1):
        (a, b), l, r = runs[k], runs[k - 1][1], runs[k + 1][0]
        if ctx.truth(S[a] > S[l]) and ctx.truth(S[b] > S[r]):
            out.append((a, b, "max"))
        elif ctx.truth(S[a] < S[l]) and ctx.truth(S[b] < S[r]):
            out.append((a, b, "min"))
    return out


def ref_nzero(ctx, S):
    """number of sign changes between neighbours plus number of zero runs"""
    n = len(S)
    c = 0
    i = 0
    while i < n:
        if ctx.truth(S[i] == 0):
            c += 1
            while i < n and ctx.truth(S[i] == 0):
                i += 1
            continue
        if i + 1 < n and ctx.truth(S[i + 1] != 0) and ctx.truth((S[i] > 0)) != ctx.truth((S[i + 1] > 0)):
            c += 1
        i += 1
    return c


def apart(ctx, x, gap=F(1, 10**4)):
    """restrict to (intermediate) signals none of whose decisions is a tie: neighbours, end samples
    against extrema, and zero are separated by more than rounding can bridge"""
    def sep(d):
        if ctx.truth(d > 0):
            ctx.assume(d >= gap)
        else:
            ctx.assume(d <= -gap)

    for v in x:
        sep(v)
    for i in range(len(x) - 1):
        sep(x[i + 1] - x[i])
    ex = [a for a, b, k in ref_extrema(ctx, x)]
    for i in ex[:2]:
        sep(x[0] - x[i])
    for i in ex[-2:]:
        sep(x[-1] - x[i])


# ---------------------------------------------------------------------------
# EMD with arbitrary behaviour in place of detection, envelopes and acceptance


def zigzag(ctx, S):
    """restrict to signals that alternate up and down at every sample"""
    up = ctx.pick((True, False), "first step up")
    for i in range(len(S) - 1):
        ctx.assume(S[i] < S[i + 1] if up == (i % 2 == 0) else S[i] > S[i + 1])


BASES = [
    ([0, 3, 1, 4, 0, 2, 1, 5, 2, 3], [0, -2, 3, -1, 2, 1, -3, 0, 2, -1]),
    ([2, -3, 4, -1, 3, -2, 1, -4, 2, 0], [1, 2, -4, 2, -1, 0, 3, 1, -2, 2]),
    ([1, 1, 4, 4, 0, 0, 3, 3, -2, -2], [0, 1, -1, 0, 2, -2, 1, 0, 1, 3]),
    ([5, 0, 0, 3, -2, -2, 2, 4, 4, -1], [-2, 1, 0, -1, 0, 3, -1, 2, -3, 0]),
]


# waves riding on others: maxima below and minima above zero, before and after the first siftings
RIDING = [
    ([3, -1, 4, -2, 4, -2, 0, -1], [-1, -2, 1, 2, 1, -2, -1, 0]),
    ([-2, 0, -4, 0, -4, 3, -4, -4], [-1, -3, -3, 3, -3, 0, -2, 0]),
    ([4, -4, 2, 0, -2, 4, 0, 1], [2, 3, 3, 0, 3, -1, 1, 2]),
]


RESET = [
    ([1, -2, -5, 3, -1, 5, 4], [0, 1, 0, -1, 0, 2, 1]),
    ([5, -1, -4, 6, 3, 6, 4], [1, 0, 2, -1, 0, 1, 0]),
]


def ray(ctx, n, params=1, bases=None, lo=0, hi=1, gap=0):
    """signal on a segment (or patch) through sample space: base + s*direction (+ u*ramp)"""
    b, d = ctx.pick(BASES if bases is None else RIDING if bases == "riding" else RESET if bases == "reset" else [BASES[i] for i in bases], "base")
    s = ctx.real("s", lo, hi)
    out = [s * d[i % len(d)] + b[i % len(b)] for i in range(n)]
    if params > 1:
        u = ctx.real("u", -1, 1)
        out = [x + u * ((i * i) % 5 - 2) for i, x in enumerate(out)]
    if gap:
        for i in range(n - 1):
            if ctx.truth(out[i + 1] > out[i]):
                ctx.assume(out[i + 1] - out[i] >= gap)
            else:
                ctx.assume(out[i] - out[i + 1] >= gap)
    return ctx.arr(out)


def long_signal(ctx, n, free=(0, -1), lo=-6, hi=6, flat=0):
    """a long signal whose samples are fixed, irregular values except at the free positions"""
    x = []
    for i in range(n):
        v = (i * i * 7 + i * 3 + (i // 13) * 5) % 11 - 5
        if flat and i % flat in (1, 2):
            v = x[-1]
        elif i and v == x[-1]:
            v += 1
        x.append(v)
    out = [F(v) for v in x]
    for j in free:
        out[j] = ctx.real("S%d" % (j % n), lo, hi)
    return ctx.arr(out)


FEW = ((3, 0), (2, 0))  # (extrema, zero crossings) when crossings do not matter
PAIRS = ((3, 3), (5, 3), (0, 0), (2, 3))


class Table:
    """outcomes chosen so far, by what was asked (shared between runs to make them agree)"""

    def __init__(self):
        self.t = dict(ext=[], env=[], check=[], end=[])
        self.n = 0


def stub_emd(ctx, n, pairs=PAIRS, bound=8, max_calls=6, table=None, max_new=99, verdicts=(True, False), ends=(False, True), **cfg):
    """EMD whose extrema counts, envelopes and acceptance verdicts are chosen by
    the solver (one choice per distinct question): whatever they are, the driver loop must keep its promises."""
    EMD = emd_cls(ctx)
    np = ctx.np
    tab = table or Table()

    class Stub(EMD):
        log = None

        def find_extrema(self, T, S):
            k, z = ctx.memo(tab.t["ext"], vals(S), lambda: ctx.pick(pairs, "extrema"))
            mx = (k + 1) // 2
            mn = k - mx
            self.log.append(("ext", k, z, vals(S)))
            return np.arange(mx), np.arange(mx), np.arange(mn), np.arange(mn), np.arange(z)

        def fresh_env(self):
            tab.n += 1
            if tab.n > max_calls:
                ctx.abort("more siftings than the bound")
            return ctx.reals("U%d_" % tab.n, n, -bound, bound), ctx.reals("L%d_" % tab.n, n, -bound, bound)

        def extract_max_min_spline(self, T, S):
            a, b = ctx.memo(tab.t["env"], vals(S), self.fresh_env)
            self.log.append(("sift", vals(S), vals(a), vals(b)))
            e = np.array([[0.0, 1.0], [1.0, 1.0]])
            return a.copy(), b.copy(), e, e

        def check_imf(self, imf_new, imf_old, eMax, eMin):
            f = ctx.memo(tab.t["check"], vals(imf_new) + vals(imf_old), lambda: ctx.pick(verdicts, "accept"))
            self.log.append(("check", f))
            return f

        def end_condition(self, S, IMF):
            f = ctx.memo(tab.t["end"], vals(S) + [x for r in rows(IMF) for x in r], lambda: ctx.pick(ends, "end"))
            self.log.append(("end", f, len(IMF)))
            return f

    emd = Stub(**cfg)
    emd.log = []
    return emd


# ---------------------------------------------------------------------------
# stand-ins for the inner EMD of the ensembles (module level: they cross pools)

NP = None


class IdentityEMD:
    """one component: what it was given"""

    def emd(self, S, T=None, max_imf=-1):
        self.S = S
        return S.reshape((1, -1)) * 1.0

    __call__ = emd

    def get_imfs_and_residue(self):
        return self.S.reshape((1, -1)) * 1.0, self.S * 0.0

    def get_imfs_and_trend(self):
        return self.S.reshape((1, -1))[:0], self.S * 1.0


class SmoothEMD:
    """local mean = weighted average with the neighbours; mode = signal - local mean.
    Deterministic and linear, so an oracle can repeat it."""

    def __init__(self, levels=2):
        self.levels = levels

    def mean(self, S):
        n = len(S)
        w = [0.25 * S[(i - 1) % n] + 0.5 * S[i] + 0.25 * S[(i + 1) % n] for i in range(n)]
        r = S * 0.0
        for i in range(n):
            r[i] = w[i]
        return r

    def emd(self, S, T=None, max_imf=-1):
        lv = self.levels if max_imf is None or max_imf < 0 else min(max_imf, self.levels)
        out, r = [], S
        for _ in range(lv):
            m = self.mean(r)
            out.append(r - m)
            r = m
        self.imfs, self.residue = NP.vstack(out) if out else S.reshape((1, -1))[:0], r
        return NP.vstack(out + [r])

    __call__ = emd

    def get_imfs_and_residue(self):
        return self.imfs, self.residue

    def get_imfs_and_trend(self):
        return self.imfs, self.residue


def use(ctx):
    global NP
    NP = ctx.np
    return ctx


def lively(ctx, seed, nt, n, kind="normal"):
    """restrict to noise realisations that are not constant (a constant one has probability
    zero and no standard deviation to normalise by)"""
    r = ctx.np.random.RandomState(seed)
    for _ in range(nt):
        x = r.normal(size=n) if kind == "normal" else r.uniform(size=n)
        ctx.assume(x[0] - x[1] >= F(1, 16))


class SignEMD(SmoothEMD):
    """number of modes depends on the data"""

    def emd(self, S, T=None, max_imf=-1):
        self.levels = 2 if S[0] > S[1] else 1
        return SmoothEMD.emd(self, S, T, max_imf)

    __call__ = emd
