"""Visualisation: what is plotted."""
import math

from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.visualisation", "PyEMD.compact", "PyEMD.EMD"], budget=dict(quick=45, thorough=120),
    bounds=["0-4 components of 1-4 samples (plots), 1-3 components of 2-9 samples (frequencies), any values, any uniform axis; 12 components of one sample"],
    outside=["appearance (colours, sizes, layout)", "the numerical value of the arctangent (uninterpreted function of real and imaginary part)"],
    stubs=["matplotlib replaced by a recorder of axes, labels and plotted data; Hilbert transform as its matrix; angle uninterpreted, unwrap by its definition"],
)
TOL = F(1, 10**6)


def make(ctx, m, n, name="x", lo=-4, hi=4):
    rs = [ctx.reals("%s%d_" % (name, k), n, lo, hi) for k in range(m)]
    return (ctx.np.vstack(rs) if m else ctx.np.zeros((0, n))), [vals(r) for r in rs]


class Holder:
    def __init__(self, imfs, residue):
        self.imfs, self.residue = imfs, residue

    def get_imfs_and_residue(self):
        return self.imfs, self.residue


def shown(ctx, fig, want, t, labels, title):
    ctx.prove("one axis per row", len(fig) == len(want), "%d axes for %d rows" % (len(fig), len(want)))
    for k, (ax, w, l) in enumerate(zip(fig, want, labels)):
        ctx.prove("rows are labelled in order", ax[1] == l, "%r instead of %r" % (ax[1], l))
        ctx.prove("title on the first axis only", ax[0] == (title if k == 0 else ""), repr(ax[0]))
        ctx.prove("one line per axis", len(ax[2]) == 1)
        ctx.prove_close("each axis shows its own row", ax[2][0][1], w, TOL, "axis %d" % k)
        ctx.prove_close("against the given time axis, or the sample numbers", ax[2][0][0], t, TOL)


def imfs(ctx, ms, ns, include, srcs):
    V = ctx.mod("PyEMD.visualisation").Visualisation
    m, n = ctx.pick(ms, "rows"), ctx.pick(ns, "samples")
    M, rs = make(ctx, m, n)
    R_ = ctx.reals("r", n, -4, 4)
    inc = ctx.pick(include, "include")
    t = ctx.pick((None, "given"), "t")
    tv = [F(i) for i in range(n)]
    T = None
    if t:
        h = ctx.real("h", F(1, 4), 4)
        T = ctx.arr([h * i + 1 for i in range(n)])
        tv = vals(T)
    src = ctx.pick(srcs, "source")
    kw = {} if inc is None else dict(include_residue=inc)
    if src == "arguments":
        vis = V()
        vis.plot_imfs(imfs=M, residue=R_, t=T, **kw)
    elif src == "instance":
        vis = V(Holder(M, R_))
        vis.plot_imfs(t=T, **kw)
    else:  # arguments win over the instance
        O, _ = make(ctx, 2, n, "o", 5, 6)
        vis = V(Holder(O, O[0] * 1.0))
        vis.plot_imfs(M, R_, T, **kw)
    figs = ctx.figs()
    ctx.prove("one figure", len(figs) == 1)
    want, lab = list(rs), ["IMF %d" % (k + 1) for k in range(m)]
    if inc is None or inc:
        want.append(vals(R_))
        lab.append("Res")
    shown(ctx, figs[0], want, tv, lab, "Time series")
    ctx.prove_close("rows are not modified", [v for r in rows(M) for v in r], [v for r in rs for v in r], 0)


def partial(ctx):
    """imfs given, residue from the instance and the other way round"""
    V = ctx.mod("PyEMD.visualisation").Visualisation
    M, rs = make(ctx, 2, 3)
    O, os = make(ctx, 1, 3, "o")
    r1, r2 = ctx.reals("r", 3, -4, 4), ctx.reals("p", 3, -4, 4)
    vis = V(Holder(O, r1))
    if ctx.pick((True, False), "imfs given"):
        vis.plot_imfs(imfs=M)
        want, lab = rs + [vals(r1)], ["IMF 1", "IMF 2", "Res"]
    else:
        vis.plot_imfs(residue=r2)
        want, lab = os + [vals(r2)], ["IMF 1", "Res"]
    shown(ctx, ctx.figs()[0], want, [F(0), F(1), F(2)], lab, "Time series")


def errors(ctx):
    V = ctx.mod("PyEMD.visualisation").Visualisation
    M, rs = make(ctx, 2, 3)
    t = ctx.arr([F(0), F(1), F(2)])
    what = ctx.pick(("nothing", "no residue", "residue only", "freq nothing", "excluded"), "case")
    vis = V()
    if what == "nothing":
        st = ctx.call(vis.plot_imfs, allowed=(AttributeError,))
    elif what == "no residue":
        st = ctx.call(vis.plot_imfs, imfs=M, allowed=(AttributeError,))
    elif what == "residue only":
        st = ctx.call(vis.plot_imfs, residue=M[0], allowed=(AttributeError,))
    elif what == "freq nothing":
        st = ctx.call(vis.plot_instant_freq, t, allowed=(AttributeError,))
    else:
        vis.plot_imfs(imfs=M, include_residue=False)
        shown(ctx, ctx.figs()[0], rs, [F(0), F(1), F(2)], ["IMF 1", "IMF 2"], "Time series")
        return
    ctx.prove("missing data is an AttributeError", st[0] == "exc", what)


def fresh_emd(ctx):
    """Visualisation of an EMD instance: before a run, after a run"""
    V = ctx.mod("PyEMD.visualisation").Visualisation
    emd = emd_cls(ctx)()
    st = ctx.call(V, emd, allowed=(ValueError,))
    ctx.prove("an instance that has not run is refused", st[0] == "exc")
    S = ray(ctx, 7, bases=[0])
    emd.emd(S, max_imf=1)
    M, r = emd.get_imfs_and_residue()
    vis = V(emd)
    ctx.prove_close("the instance's modes", vis.imfs, M, 0)
    vis.plot_imfs()
    shown(ctx, ctx.figs()[0], rows(M) + [vals(r)], [F(i) for i in range(7)], ["IMF %d" % (k + 1) for k in range(len(M))] + ["Res"], "Time series")


def bad_alpha(ctx):
    V = ctx.mod("PyEMD.visualisation").Visualisation
    M, rs = make(ctx, 1, 7)
    a = ctx.pick((0.5, -0.5, 0.75, -1.0, 3), "alpha")
    st = ctx.call(V().plot_instant_freq, ctx.np.arange(7) * 0.5, M, alpha=a, allowed=(AssertionError,))
    ctx.prove("alpha outside (-1/2, 1/2) is refused", st[0] == "exc", str(a))


def freq(ctx, ms, ns, orders, alphas, src=("arguments",)):
    V = ctx.mod("PyEMD.visualisation").Visualisation
    np, co = ctx.np, ctx.mod("PyEMD.compact")
    m, n = ctx.pick(ms, "rows"), ctx.pick(ns, "samples")
    M, rs = make(ctx, m, n)
    for r in rs:
        ctx.assume(r[0] >= r[1] + F(1, 4))
    h = ctx.pick((F(1), F(1, 4), F(3)), "dt")
    T = ctx.arr([h * i + 2 for i in range(n)])
    order, alpha = ctx.pick(orders, "order"), ctx.pick(alphas, "alpha")
    kw = {}
    if order is not None:
        kw["order"] = order
    if alpha is not None:
        kw["alpha"] = alpha
    if ctx.pick(src, "source") == "arguments":
        V().plot_instant_freq(T, M, **kw)
    else:
        V(Holder(M, M[0] * 0.0)).plot_instant_freq(T, **kw)
    want = []
    z = ctx.mod("scipy.signal").hilbert(M)
    for k in range(m):
        re, im = z[k].real, z[k].imag
        if alpha is not None:
            re, im = co.filt6(re, alpha), co.filt6(im, alpha)
        # keep clear of a vanishing analytic signal (its phase is undefined)
        for i in range(n):
            ctx.assume(ctx.Or(re[i] >= F(1, 100), re[i] <= -F(1, 100)))
        ph = np.unwrap(np.angle(re + 1j * im))
        if alpha is not None:
            ph = co.filt6(ph, alpha)
        if order:
            f = vals(co.pade6(ph, float(h)) / (2 * math.pi))
        else:
            f = [(ph[i + 1] - ph[i]) / (2 * math.pi * float(h)) for i in range(n - 1)]
            f.append(f[-1])
        if alpha is not None:
            f = vals(co.filt6(ctx.arr(f), alpha))
        want.append(f)
    shown(ctx, ctx.figs()[0], want, vals(T), ["IMF %d [Hz]" % (k + 1) for k in range(m)], "Instantaneous frequency")
    ctx.prove_close("rows are not modified", [v for r in rows(M) for v in r], [v for r in rs for v in r], 0)


def tasks(tier):
    q = tier == "quick"
    S3 = ("arguments", "instance", "both")
    t = [
        Task("imfs", imfs, dict(ms=[1, 2, 3], ns=[1, 3], include=[None, True, False], srcs=S3)),
        Task("imfs-truthy", imfs, dict(ms=[1, 2], ns=[2], include=[1, 0], srcs=("arguments",))),
        Task("no-imfs", imfs, dict(ms=[0], ns=[2], include=[None, True], srcs=("arguments", "instance"))),
        Task("many", imfs, dict(ms=[9, 10, 12], ns=[1], include=[None, False], srcs=("arguments",))),
        Task("partial", partial),
        Task("errors", errors),
        Task("emd-instance", fresh_emd),
        Task("alpha-refused", bad_alpha),
        Task("freq-low", freq, dict(ms=[1, 2], ns=[2, 3, 4], orders=[None, False], alphas=[None], src=("arguments", "instance"))),
        Task("freq-high", freq, dict(ms=[1, 2], ns=[7, 8], orders=[True], alphas=[None])),
        Task("freq-filter", freq, dict(ms=[1, 2], ns=[7], orders=[None, True], alphas=[0.0, 0.25, -0.375])),
    ]
    if not q:
        t += [Task("freq-more", freq, dict(ms=[1, 3], ns=[7, 8, 9, 12], orders=[None, True], alphas=[None, 0.25, 0.49, -0.49]))]
    return t
