"""np.arange(n) of symbolic length n: element i is the integer i cast to the dtype."""
import numpy as np

from .core import R, Unsupported, r_floordiv


def cast_int(i, dt):
    """value of the integer i (R, 0 <= i < 2**62) stored in dtype dt; forks on the size of i"""
    dt = np.dtype(dt)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if bool(i <= int(info.max)):
            return i
        b = dt.itemsize * 8
        lo = int(info.min)
        q = r_floordiv(i - lo, 2**b)
        return i - q * (2**b)
    if dt.kind == "f":
        p = np.finfo(dt).nmant + 1
        if bool(i <= 2**p):
            return i
        if dt.itemsize == 2 and bool(i >= 65520):
            return R.of(float("inf"))
        k = 1
        while not bool(i <= 2 ** (p + k)):
            k += 1
        # round to a multiple of 2**k, ties to even
        g = 2**k
        q = r_floordiv(i, g)
        r = i - q * g
        if bool(r * 2 < g):
            return q * g
        if bool(r * 2 > g):
            return (q + 1) * g
        odd = q - r_floordiv(q, 2) * 2
        return (q + odd) * g
    raise Unsupported("arange dtype " + str(dt))


class SymTimeline:
    ndim = 1

    def __init__(self, n, dtype):
        self.n, self.dtype = n, np.dtype(dtype)

    def symlen(self):
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __getitem__(self, i):
        if isinstance(i, slice) or isinstance(i, (tuple, list, np.ndarray)):
            raise Unsupported("slice of a symbolic-length range")
        i = R.of(i)
        if i.is_const():
            if i.c < 0:
                i = self.n + i
        if not bool(i < self.n) or not bool(i >= 0):
            raise IndexError("index out of bounds")
        return cast_int(i, self.dtype)

    def astype(self, dt, **k):
        if np.dtype(dt) == self.dtype:
            return self
        raise Unsupported("astype of a symbolic-length range")

    def __getattr__(self, n):
        raise Unsupported("%s of a symbolic-length range" % n)


def sym_arange(a, dtype):
    from .arr import _realdt

    if len(a) == 2:
        if not (R.of(a[0]).is_const() and R.of(a[0]).c == 0):
            return None
        n = a[1]
    elif len(a) == 1:
        n = a[0]
    else:
        return None
    n = R.of(n)
    if not n.isint:
        return None
    if not bool(n >= 0):
        return None
    return SymTimeline(n, np.int64 if dtype is None else _realdt(dtype))
