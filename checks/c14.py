"""Default time axis: exactly 0, 1, ..., n-1 whatever the sample type; common types lose nothing."""
from .common import *

META = dict(
    mods=["PyEMD", "PyEMD.utils", "PyEMD.EMD"], budget=dict(quick=45, thorough=120),
    bounds=["any length up to 2**25 (2**40 thorough) and any position in it, every integer and float sample type"],
    outside=["lengths beyond the bound", "numpy's arange and casts are modelled (wrap-around for integers, round-to-nearest-even for floats)"],
)
DT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"]


def kind(d):
    return "f" if d.kind == "f" else "i"


def at(ctx, tl, i):
    """exact value (a float16 compared with a Python integer rounds the integer first)"""
    return tl[i] if ctx.symbolic else tl[i].item()


def timeline(ctx, nmax, dts, nmin=1):
    import numpy

    u = ctx.mod("PyEMD.utils")
    dt = ctx.pick(dts, "dtype")
    n = ctx.int("n", nmin, nmax)
    i = ctx.int("i", 0, nmax)
    ctx.assume(i < n)
    tl = u.get_timeline(n, numpy.dtype(dt))
    ln = tl.symlen() if hasattr(type(tl), "symlen") else len(tl)
    ctx.prove("one time per sample", ln == n, "%s" % dt)
    ctx.prove("sample i is at time i", at(ctx, tl, i) == i, "dtype %s" % dt)
    d = numpy.dtype(tl.dtype)
    ctx.prove("integers stay integers, floats stay floats", kind(d) == kind(numpy.dtype(dt)), "%s -> %s" % (dt, d))
    ctx.prove("the type is at least as wide", d.itemsize >= numpy.dtype(dt).itemsize, "%s -> %s" % (dt, d))


def default(ctx, nmax):
    """without a sample type"""
    u = ctx.mod("PyEMD.utils")
    n = ctx.int("n", 1, nmax)
    i = ctx.int("i", 0, nmax)
    ctx.assume(i < n)
    tl = u.get_timeline(n)
    ctx.prove("sample i is at time i", at(ctx, tl, i) == i)


def smallest(ctx, dts, vmax):
    """the widened type represents every integer of the range"""
    import numpy

    u = ctx.mod("PyEMD.utils")
    dt = numpy.dtype(ctx.pick(dts, "dtype"))
    v = ctx.int("v", 1, vmax)
    r = numpy.dtype(u.smallest_inclusive_dtype(dt, v))
    top = int(numpy.iinfo(r).max) if r.kind in "iu" else 2 ** (numpy.finfo(r).nmant + 1)
    ctx.prove("the chosen type represents the whole range", v <= top, str(r))
    ctx.prove("integers stay integers, floats stay floats", kind(r) == kind(dt), "%s -> %s" % (dt, r))


def unify(ctx, xs, ys, n):
    """both arrays end with one type and unchanged values"""
    import numpy

    u = ctx.mod("PyEMD.utils")
    xd, yd = numpy.dtype(ctx.pick(xs, "x")), numpy.dtype(ctx.pick(ys, "y"))

    def mk(name, d):
        if d.kind == "f":
            return ctx.ints(name, n, -100, 100).astype(d)  # exactly representable in every float type
        lo, hi = max(-100, int(numpy.iinfo(d).min)), min(250, int(numpy.iinfo(d).max))
        return ctx.ints(name, n, lo, hi, str(d))

    x, y = mk("x", xd), mk("y", yd)
    kx, ky = vals(x), vals(y)
    a, b = u.unify_types(x, y)
    ctx.prove("one common type", numpy.dtype(a.dtype) == numpy.dtype(b.dtype), "%s %s" % (a.dtype, b.dtype))
    ctx.prove_close("values survive", vals(a), kx, 0)
    ctx.prove_close("values survive", vals(b), ky, 0)
    ctx.prove_close("arguments are not modified", vals(x), kx, 0)


def normal(ctx, n, dts, nmax):
    """times fed to the decomposition start at zero, keep their order and spacing"""
    EMD = emd_cls(ctx)
    T = ctx.reals("T", n, -1000, 1000)
    for i in range(n - 1):
        ctx.assume(T[i + 1] - T[i] >= F(1, 64))
    t = EMD._normalize_time(T)
    ctx.prove_close("starts at zero", t[0], 0, F(1, 10**9))
    for i in range(n - 1):
        ctx.prove("smallest step is one", t[i + 1] - t[i] >= 1 - 1e-9)
        for j in range(n - 1):
            # proportional spacing
            ctx.prove("spacing keeps its proportions", ctx.near((t[i + 1] - t[i]) * (T[j + 1] - T[j]), (t[j + 1] - t[j]) * (T[i + 1] - T[i]), F(1, 10**3)))


def tasks(tier):
    q = tier == "quick"
    top = 2**25 if q else 2**40
    t = [
        Task("timeline", timeline, dict(nmax=top, dts=DT)),
        Task("timeline-default", default, dict(nmax=top)),
        Task("smallest", smallest, dict(dts=DT, vmax=2**40)),
        Task("unify", unify, dict(xs=DT, ys=DT, n=1)),
        Task("normal-n3", normal, dict(n=3, dts=DT, nmax=top)),
    ]
    return t
