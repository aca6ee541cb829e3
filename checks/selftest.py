"""Engine self-test (not a property): symbolic evaluation of numpy expressions against numpy itself.
python: ./run selftest -v; every expression's values on sampled paths are compared by the validation step."""
from .common import *

META = dict(mods=["PyEMD"], budget=dict(quick=120, thorough=120), bounds=[], outside=[])
X1 = """np.median(x)|np.median(m, axis=0)|np.median(m, axis=1)|np.median(x[:3])|np.percentile(x, 30)|np.quantile(x, [0.25, 0.6])|np.percentile(m, 50, axis=1)
np.sort(m, axis=0)|np.sort(m, axis=1)|np.sort(m, axis=None)|np.argsort(m, axis=0)|np.argmax(m, axis=0)|np.argmax(m, axis=1)|np.argmin(m, axis=0)|np.argmax(m)
np.convolve(x, [1, 2, 1])|np.convolve(x, [1, 2, 1], "same")|np.convolve(x, [1.0, 3], "same")|np.convolve(x, [1, 2, 1], mode="valid")|np.convolve(y[:2], x)
np.correlate(x, y[:2])|np.correlate(x, y[:3], "full")|np.correlate(x, y[:3], "same")|np.correlate(x, y[:2], "same")|np.correlate(y[:2], x)
np.cumprod(x[:3])|np.cumsum(m, axis=0)|np.cumsum(m, axis=1)|np.cumsum(m)|np.outer(x, y)|np.ediff1d(x)|np.ediff1d(x, to_begin=0.0)|np.trapezoid(x)|np.trapezoid(x, dx=0.5)
np.nanmean(x)|np.nansum(x)|np.nanmax(x)|np.average(x, weights=[1, 2, 3, 4])|np.average(m, axis=0)|np.average(m, axis=1, weights=[1, 2, 3])
np.sum(x, where=x > 0)|np.mean(m, axis=0, keepdims=True)|np.sum(m, axis=1, keepdims=True)|np.round(x, 1)|np.round(x)|np.rint(x)|np.floor(x)|np.ceil(x)|np.fix(x)|np.trunc(x)
np.union1d(x, y)|np.intersect1d(x, y)|np.setdiff1d(x, y)|np.unique(x)|np.select([x > 1, x > 0], [x, -x], 5.0)|np.where(x > 0, x, y)|np.clip(x, -0.5, 0.5)
np.apply_along_axis(np.max, 0, m)|np.apply_along_axis(np.cumsum, 1, m)|np.polyval([1, 2, 3], x)|np.digitize(x, [-1, 0, 1])|np.searchsorted([-1.0, 0.0, 1.0], x)
np.einsum("ij,ij->i", m, m)|np.einsum("ij->j", m)|np.dot(m, y)|m @ y|np.inner(x, y)|np.vdot(x, y)|np.roll(x, 1)|np.flip(x)|np.fliplr(m)|np.flipud(m)|np.tile(x, 2)|np.repeat(x, 2)
np.pad(x, 1, mode="reflect")|np.pad(x, (1, 2), mode="edge")|np.pad(x, 1)|np.diff(x, n=2)|np.diff(m, axis=0)|np.diff(x, prepend=0)|np.gradient(x)|np.ptp(x)|np.ptp(m, axis=0)
np.maximum(x, y)|np.minimum.reduce(x)|np.add.reduce(x)|np.maximum.accumulate(x)|np.logical_and(x > 0, y > 0)|np.any(x > 1)|np.all(m > -9, axis=0)|np.sign(x)|np.abs(x)|np.fabs(x)|np.square(x)
np.std(x)|np.var(m, axis=0)|np.hypot(x, 1)|np.fmod(x, 1)|x % 1|x // 1|np.heaviside(x, 0.5)|np.copysign(y, x)|np.argwhere(x > 0)|np.flatnonzero(x > 0)|np.count_nonzero(x > 0)|np.nonzero(m > 0)[1]
np.column_stack([x, y])|np.vstack([x, y])|np.hstack([x, y])|np.dstack([x, y])|np.stack([x, y], axis=1)|np.block([x, y])|np.insert(x, 1, 7)|np.delete(x, [0, 2])|np.append(x, 3)|np.r_[x, 1.0]
np.interp([0.5, 1.5], [0.0, 1, 2, 3], x)|np.take(x, [1, 2])|x.take([0, 1])|x.clip(-1, 1)|x.argsort()|x.cumsum()|x.round()|x.mean()|x.std()|x.ptp() if hasattr(x, "ptp") else 0|x.dot(y)|m.T|m.ravel()|m.flatten()|m.sum(0)|m.min(axis=1)
np.isclose(x, y)|np.allclose(x, x)|np.array_equal(x, y)|np.linalg.norm(x)|np.triu(np.outer(x, y))|np.diag(x)|np.trim_zeros(x)|np.array_split(x, 2)[0]|np.split(x, 2)[1]|np.extract(x > 0, x)|np.compress(x > 0, x)
np.log2(np.abs(x) + 1)|np.exp(x)|np.prod(x)|max(x)|min(x)|sum(x)|sorted(x)[0]|np.fmax(x, y)|np.amax(x)|np.max(m, axis=0)|np.nan_to_num(x)|np.lexsort((x,)) if False else 0|np.isin(x, y)
""".replace("\n", "|")


def ex(ctx, exprs):
    s = ctx.pick(exprs, "expr")
    x = ctx.reals("x", 4, -2, 2)
    y = ctx.reals("y", 4, -2, 2)
    m = ctx.np.vstack([ctx.reals("m", 3, -2, 2), ctx.reals("k", 3, -2, 2)])
    if "m" not in s.replace("median", "").replace("max", "").replace("sum", "").replace("mean", ""):
        pass
    if ".dot(" in s or "m @" in s or "dot(m" in s:
        y = y[:3] if "m" in s.replace("sum", "") and "x.dot" not in s else y
    r = eval(s, dict(np=ctx.np, x=x, y=y, m=m))
    ctx.prove("evaluates", True)
    a = ctx.np.asarray(r)
    ctx.observe(s, a if a.ndim else ctx.np.asarray([r]))


def tasks(tier):
    es = [e.strip() for e in X1.split("|") if e.strip()]
    return [Task("e%03d %s" % (i, e), ex, dict(exprs=[e])) for i, e in enumerate(es)]
